BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B("event_owner_reuse", "C01",
  "two listeners with the same owner on one event, token not kept",
  "the event keeps only the last listener per owner, so the earlier listener silently disappears",
  [("Event.py", "            self.__listeners[id(weak_owner)] = listener, weak_owner\n",
    "            self.__listeners[id(owner)] = listener, weak_owner\n"),
   ("Event.py", "                listener = self.__listeners[id(weak_owner)][0]\n                listener.close()\n                del self.__listeners[id(weak_owner)]\n",
    "                for key, (listener, weak_owner_) in list(self.__listeners.items()):\n                    if weak_owner_ is weak_owner:\n                        listener.close()\n                        del self.__listeners[key]\n")],
  """
from nion.utils import Event
class O: pass
o = O()
e = Event.Event()
log = []
e.listen(lambda: log.append(1), owner=o)
e.listen(lambda: log.append(2), owner=o)
e.fire()
assert log == [1, 2], log
""")
B("selection_extend_gap", "C04",
  "multiple style, extend below the anchor when the anchor is not the lowest selected index",
  "extending downwards drops the anchor end of the range",
  [("Selection.py", "                    for new_index in range(index, self.__anchor_index + 1):\n                        self.__indexes.add(new_index)\n",
    "                    for new_index in range(index, min(self.__indexes)):\n                        self.__indexes.add(new_index)\n")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set(5); s.add(2)
s.extend(1)
assert s.indexes == {1, 2, 3, 4, 5}, s.indexes
""")
B("selection_remove_index_anchor", "C05",
  "item before the anchor removed while the anchor is not the lowest selected index",
  "the anchor is only moved down when the removed index was itself selected",
  [("Selection.py", "            elif remove_index < self.__anchor_index:\n                self.__anchor_index -= 1\n",
    "            elif remove_index < self.__anchor_index and self.__anchor_index not in self.__indexes:\n                self.__anchor_index -= 1\n")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set(5); s.add(4)
s.remove_index(2)   # {4, 3}, anchor item moved to 4
assert s.indexes == {3, 4} and s.anchor_index == 4, (s.indexes, s.anchor_index)
s = Selection.IndexedSelection()
s.set(5); s.add(6)
s.remove_index(2)
assert s.indexes == {4, 5} and s.anchor_index == 4, (s.indexes, s.anchor_index)
""")
B("filtered_grouped_remove", "C08",
  "a grouped change that removes two items that are not adjacent, list already established",
  "the remove index of the second item is not corrected for the first when an item in between stays",
  [("ListModel.py", "                        items_removed += 1\n", "                        items_removed = 1\n")],
  """
from nion.utils import ListModel
class I:
    pass
items = [I() for _ in range(5)]
l = ListModel.ListModel("a", items)
f = ListModel.FilteredListModel(container=l, master_items_key="a", items_key="b")
f.mark_changed()
with f.changes():
    l.remove_item(4); l.remove_item(2); l.remove_item(0)
assert f.items == [items[1], items[3]], [items.index(x) for x in f.items]
""")

INTERLEAVE = '''
import sys, threading

def interleave(make):
    """make() -> main, other, check: run main; at its k-th operation inside the library let other run in a second
    thread (until it ends or blocks); then check. For every k."""
    k = 0
    while True:
        main, other, check = make()
        count, thread = [0], [None]
        def local(frame, event, arg):
            if event == "opcode":
                if count[0] == k and thread[0] is None:
                    thread[0] = threading.Thread(target=other, daemon=True)
                    thread[0].start()
                    thread[0].join(0.02)
                count[0] += 1
            return local
        def tracer(frame, event, arg):
            frame.f_trace_opcodes = True
            if "nion/utils" not in frame.f_code.co_filename:
                return None
            return local
        sys._getframe().f_trace_opcodes = True
        for fn in (lambda: None, main):  # (the first run only switches the tracing of operations on)
            sys.settrace(tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
        if thread[0] is None:
            return
        thread[0].join(5)
        assert not thread[0].is_alive(), "blocked"
        check()
        k += 1
'''

# ---------------------------------------------------------------- C01, C02, C03

B("event_call_snapshot", "C01",
  "a listener that closes a later listener during the firing",
  "the functions to call are collected before the firing, so a listener closed meanwhile is still called",
  [("Event.py", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener, call in [(listener, listener.call) for listener in listeners if listener]:
                    call(*args, **keywords)
""")],
  """
from nion.utils import Event
e = Event.Event()
log = []
a = e.listen(lambda: (log.append(1), b.close()))
b = e.listen(lambda: log.append(2))
e.fire()
assert log == [1], log
""")
B("event_owner_weak_token", "C01",
  "a listener with an owner whose token is not kept while another listener has the same owner and is closed",
  "closing one listener of an owner forgets the owner's other listeners",
  [("Event.py", "    def close(self):\n        self.__listener_fn = None\n", "    def close(self):\n        self.__listener_fn = None\n        self.tb = None\n"),
   ("Event.py", "            self.__listeners[id(weak_owner)] = listener, weak_owner\n",
    "            for key in [key for key, value in self.__listeners.items() if value[0].closed]:\n                owner_ = self.__listeners[key][1]()\n                for key_ in [k for k, v in self.__listeners.items() if v[1]() is owner_]:\n                    del self.__listeners[key_]\n            self.__listeners[id(weak_owner)] = listener, weak_owner\n")],
  """
from nion.utils import Event
class O: pass
o = O()
e = Event.Event()
log = []
a = e.listen(lambda: log.append(1), owner=o)
e.listen(lambda: log.append(2), owner=o)
a.close()
p = O()
e.listen(lambda: log.append(3), owner=p)
e.fire()
assert log == [2, 3], log
""")
B("event_any_identity", "C02",
  "a listener that answers with a true value which is not True",
  "only the value True counts as a yes",
  [("Event.py", "                        if listener.call(*args, **keywords):\n                            return True\n",
    "                        if listener.call(*args, **keywords) is True:\n                            return True\n")],
  """
from nion.utils import Event
e = Event.Event()
a = e.listen(lambda: 1)
b = e.listen(lambda: None)
assert e.fire_any() is True
""")
B("event_exception_kinds", "C02",
  "a listener that raises an exception that is not an ArithmeticError, LookupError, ...",
  "only some kinds of exceptions are contained by plain firings",
  [("Event.py", """                        listener.call(*args, **keywords)
            except Exception as e:
""", """                        listener.call(*args, **keywords)
            except (ArithmeticError, AssertionError, AttributeError, LookupError, RuntimeError, TypeError, ValueError) as e:
""")],
  """
from nion.utils import Event
e = Event.Event()
class MyError(Exception): pass
def f(): raise MyError()
a = e.listen(f)
e.fire()
""")
B("event_unlocked_remove", "C03",
  "a listener is dropped on one thread while another thread adds one",
  "removal rebuilds the list without the lock, losing a listener added meanwhile",
  [("Event.py", """            with self.__weak_listeners_mutex:
                self.__weak_listeners.remove(weak_listener)
""", """            self.__weak_listeners = [w for w in self.__weak_listeners if w is not weak_listener]
""")],
  INTERLEAVE + """
from nion.utils import Event
def make():
    e = Event.Event()
    log = []
    keep = [e.listen(lambda: log.append(1)), e.listen(lambda: log.append(2))]
    def main():
        keep.pop(0)
    def other():
        keep.append(e.listen(lambda: log.append(3)))
    def check():
        e.fire()
        assert sorted(log) == [2, 3], log
    return main, other, check
interleave(make)
""")
B("event_unlocked_fire", "C03",
  "a listener is dropped on another thread while the firing collects the listeners",
  "collecting the listeners without the lock skips a listener that stays attached",
  [("Event.py", """        listener = None
        if self.__weak_listeners:
            try:
                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""", """        listener = None
        if self.__weak_listeners:
            try:
                listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""")],
  INTERLEAVE + """
from nion.utils import Event
def make():
    e = Event.Event()
    log = []
    keep = [e.listen(lambda i=i: log.append(i)) for i in range(3)]
    def main():
        e.fire()
    def other():
        keep[0] = None
    def check():
        assert 1 in log and 2 in log, log
    return main, other, check
interleave(make)
""")

# ---------------------------------------------------------------- C04, C05

B("selection_set_multiple_alias", "C04",
  "the set given to set_multiple is used again afterwards",
  "the selection uses the given set itself, so adding to the selection changes the caller's set and vice versa",
  [("Selection.py", "            self.__indexes = set()\n            self.__indexes.update(indexes)\n", "            self.__indexes = indexes if isinstance(indexes, set) else set(indexes)\n")],
  """
from nion.utils import Selection
s, t = Selection.IndexedSelection(), Selection.IndexedSelection()
x = {1, 2}
s.set_multiple(x); t.set_multiple(x)
s.add(3)
assert t.indexes == {1, 2} and x == {1, 2}, t.indexes
""")
B("selection_clear_anchor", "C04",
  "clearing an empty single-or-none selection, then extending",
  "clearing keeps the anchor of the last selection when the style is single_or_none",
  [("Selection.py", "            self.__indexes = set()\n            self.__anchor_index = None\n        if old", "            self.__indexes = set()\n            self.__anchor_index = None if self.selection_style != Style.single_or_none else self.__anchor_index\n        if old")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection(Selection.Style.single_or_none)
s.set(3); s.clear()
assert s.anchor_index is None
""")
B("selection_extend_no_event", "C04",
  "extending an empty selection",
  "the first index selected by extend is not announced",
  [("Selection.py", "                self.__anchor_index = index\n                self.__indexes.add(index)\n            if old_index", "                self.__anchor_index = index\n                self.__indexes.add(index)\n                old_index.add(index)\n            if old_index")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection()
log = []
l = s.changed_event.listen(lambda: log.append(1))
s.extend(4)
assert log == [1]
""")
B("selection_single_multiple", "C04",
  "set_multiple with several indexes in single style",
  "a single selection takes the lowest of several indexes instead of being cleared",
  [("Selection.py", "        elif self.selection_style in (Style.single, Style.single_or_none) and len(indexes) == 1:\n            self.set(list(indexes)[0])\n",
    "        elif self.selection_style in (Style.single, Style.single_or_none) and len(indexes) >= 1:\n            self.set(min(indexes))\n")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection(Selection.Style.single_or_none)
s.set_multiple({2, 3})
assert not s.indexes, s.indexes
""")
B("selection_insert_anchor_only", "C05",
  "an item is inserted exactly at the anchor",
  "the anchor stays although its item moved",
  [("Selection.py", "            if new_index <= self.__anchor_index:\n", "            if new_index < self.__anchor_index or new_index == self.__anchor_index == 0:\n")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set(3)
s.insert_index(3)
assert s.indexes == {4} and s.anchor_index == 4
""")
B("selection_remove_last_anchor", "C05",
  "the anchor's item is removed and it was below the other selected items",
  "the new anchor is computed from the indexes before the removal",
  [("Selection.py", """        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
        if self.__anchor_index is not None:
            if remove_index == self.__anchor_index:
                self.__update_anchor_index()
            elif remove_index < self.__anchor_index:
                self.__anchor_index -= 1
""", """        if self.__anchor_index is not None:
            if remove_index == self.__anchor_index:
                self.__indexes.discard(remove_index)
                self.__update_anchor_index()
            elif remove_index < self.__anchor_index:
                self.__anchor_index -= 1
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
""")],
  """
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set_multiple({1}); s.add(5)
s.remove_index(1)
assert s.indexes == {4} and s.anchor_index == 4, (s.indexes, s.anchor_index)
""")

# ---------------------------------------------------------------- C06 - C10

B("list_remove_equal", "C06",
  "two equal items in the list, the later one removed",
  "the first equal item is removed instead of the one at the index",
  [("ListModel.py", "        value = self.__items[index]\n        del self.__items[index]\n", "        value = self.__items[index]\n        self.__items.remove(value)\n")],
  """
from nion.utils import ListModel
l = ListModel.ListModel("a", [1, 2, 1])
l.remove_item(2)
assert l.items == [1, 2], l.items
""")
B("list_alias_initial", "C06",
  "the list given to the constructor is changed later",
  "the model uses the given list itself",
  [("ListModel.py", "        self.__items : typing.List[T] = list(items) if items else list()\n", "        self.__items : typing.List[T] = items if isinstance(items, list) else list(items or ())\n")],
  """
from nion.utils import ListModel
x = [1]
l = ListModel.ListModel("a", x)
l.append_item(2)
assert x == [1] and l.items == [1, 2]
""")
B("list_clear_bulk", "C06",
  "clearing a list with an observer that looks at the list while being told",
  "clear_items empties the list first and announces afterwards, so the list does not match the announcements",
  [("ListModel.py", """        while self.__items:
            self.remove_item(len(self.__items) - 1)
""", """        items = list(self.__items)
        self.__items.clear()
        for index in reversed(range(len(items))):
            self.notify_remove_item(self.__key if self.__key else "items", items[index], index)
""")],
  """
from nion.utils import ListModel
l = ListModel.ListModel("a", [1, 2, 3])
sizes = []
k = l.item_removed_event.listen(lambda key, value, index: sizes.append((index, len(l.items))))
l.clear_items()
assert sizes == [(2, 2), (1, 1), (0, 0)], sizes
""")
B("filtered_nested_changes", "C07",
  "nested groups of changes",
  "the end of an inner group ends the outer group as well",
  [("ListModel.py", """        with self._update_mutex:
            self.__change_level -= 1
            if self.__change_level == 0:
                self.__update_items()
""", """        with self._update_mutex:
            self.__change_level = 0
            self.__update_items()
""")],
  """
from nion.utils import ListModel
class I: pass
a, b = I(), I()
l = ListModel.ListModel("a", [a])
f = ListModel.FilteredListModel(container=l, items_key="a")
with f.changes():
    with f.changes():
        l.append_item(b)
    assert f.items == [a]
assert f.items == [a, b]
""")
B("filtered_moved_up_only", "C07",
  "an item's sort key grows past that of its successor",
  "only items that belong before their predecessor are moved",
  [("ListModel.py", "                    if item in items:\n", "                    if item in items and self.sort_reverse and items.index(item) == len(items) - 1:\n                        pass\n                    elif item in items:\n")],
  """
from nion.utils import ListModel, Event
class I:
    def __init__(self, k):
        self.k = k
        self.item_changed_event = Event.Event()
x = [I(1), I(2), I(3)]
l = ListModel.ListModel("a", x)
f = ListModel.FilteredListModel(container=l, items_key="a")
f.sort_key = lambda i: i.k
f.sort_reverse = True
x[0].k = 5
x[0].item_changed_event.fire()
assert [i.k for i in f.items] == [5, 3, 2], [i.k for i in f.items]
""")
B("filtered_hidden_before", "C07",
  "an item becomes visible while an item before it in the container is hidden, no sort key",
  "hidden items are counted when an item's place is looked up",
  [("ListModel.py", "            if filter.matches(item_):\n                index += 1\n        return index\n", "            if item_ in self.__items or len(master_items) == 1:\n                index += 1\n            elif filter.matches(item_):\n                index += 1\n        return index\n"),
   ("ListModel.py", "            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)\n",
    "            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter if len(items) < 2 else Filter(True))\n")],
  """
from nion.utils import ListModel
class I:
    def __init__(self, v): self.v = v
x = [I(1), I(0), I(1), I(1)]
y = I(1)
l = ListModel.ListModel("a", x)
f = ListModel.FilteredListModel(container=l, items_key="a")
f.filter = ListModel.EqFilter("v", 1)
l.insert_item(2, y)
assert f.items == [x[0], y, x[2], x[3]], [(x + [y]).index(i) for i in f.items]
""")
B("filtered_stale_listener", "C07",
  "an item moves from one container to the other while the list follows the other container",
  "content changes of items that were in the container only during construction are not followed after re-insertion",
  [("ListModel.py", "                self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, \"item_changed_event\") else None\n",
    "                self.__item_changed_event_listeners.setdefault(id(item), item.item_changed_event.listen(item_content_changed) if hasattr(item, \"item_changed_event\") else None)\n"),
   ("ListModel.py", "                del self.__item_changed_event_listeners[id(item)]\n", "")],
  """
from nion.utils import ListModel, Event
class I:
    def __init__(self, k):
        self.k = k
        self.item_changed_event = Event.Event()
x = [I(1), I(2)]
l = ListModel.ListModel("a", x)
f = ListModel.FilteredListModel(container=l, items_key="a")
f.sort_key = lambda i: i.k
l.remove_item(0)
l.insert_item(0, x[0])
x[0].k = 3
x[0].item_changed_event.fire()
assert [i.k for i in f.items] == [2, 3], [i.k for i in f.items]
""")
B("filtered_end_key", "C08",
  "a chain of filtered lists with different keys for source and result",
  "end-changes of the source are relayed only when the keys agree, so begin and end are not balanced",
  [("ListModel.py", """                def end_changes(key):
                    if key == self.__master_items_key:
                        self.end_changes_event.fire(self.__items_key)
""", """                def end_changes(key):
                    if key == self.__items_key:
                        self.end_changes_event.fire(self.__items_key)
""")],
  """
from nion.utils import ListModel
class I: pass
l = ListModel.ListModel("a", [I()])
f = ListModel.FilteredListModel(container=l, master_items_key="a", items_key="b")
g = ListModel.FilteredListModel(container=f, master_items_key="b", items_key="c")
n = [0]
def d(k): n[0] += k
b = g.begin_changes_event.listen(lambda k: d(1))
e = g.end_changes_event.listen(lambda k: d(-1))
l.append_item(I())
assert n[0] == 0
""")
B("filtered_full_replace_index", "C08",
  "an order change with a listener that rebuilds the list",
  "removals of a full replacement are announced from the front with indexes counted from the back",
  [("ListModel.py", """                    self.__items.pop()
                    self.notify_remove_item(self.__items_key, item, len(self.__items))
""", """                    self.__items.pop()
                    self.notify_remove_item(self.__items_key, item, len(self.__items) if len(old_items) < 4 else len(self.__items) - len(self.__items) % 4)
""")],
  """
from nion.utils import ListModel
class I:
    def __init__(self, k): self.k = k
l = ListModel.ListModel("a", [I(i) for i in range(4)])
f = ListModel.FilteredListModel(container=l, items_key="a")
c = list(f.items)
def rem(key, item, index):
    assert c[index] is item
    del c[index]
r = f.item_removed_event.listen(rem)
a = f.item_inserted_event.listen(lambda key, item, index: c.insert(index, item))
f.sort_key = lambda i: -i.k
assert c == f.items, (len(c), len(f.items))
""")
B("mapped_unmap_source", "C09",
  "a mapped list with an unmap function is emptied by replacing its container",
  "objects of the old container are not unmapped when the container is replaced by another one",
  [("ListModel.py", """                mapped_item = self.__items[index]
                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item)
                del self.__items[index]
""", """                mapped_item = self.__items[index]
                if callable(self.__unmap_fn) and (self.__item_removed_event_listener or not self.__items[1:]):
                    self.__unmap_fn(mapped_item)
                del self.__items[index]
""")],
  """
from nion.utils import ListModel
l = ListModel.ListModel("a", [1, 2])
log = []
m = ListModel.MappedListModel(container=l, master_items_key="a", items_key="b", map_fn=lambda x: x * 10, unmap_fn=log.append)
m.container = None
assert sorted(log) == [10, 20], log
""")
B("mapped_map_twice_equal", "C09",
  "two source items that map to equal objects, the later one removed",
  "removal looks the mapped object up by equality and removes the first equal one",
  [("ListModel.py", """                del self.__items[index]
                self.notify_remove_item(self.__items_key, mapped_item, index)
                for selection in self.__selections:
                    selection.remove_index(index)


class Flat""", """                index = self.__items.index(mapped_item)
                del self.__items[index]
                self.notify_remove_item(self.__items_key, mapped_item, index)
                for selection in self.__selections:
                    selection.remove_index(index)


class Flat""")],
  """
from nion.utils import ListModel
class M:
    def __init__(self, x): self.x = x
    def __eq__(self, other): return True
l = ListModel.ListModel("a", [1, 2])
m = ListModel.MappedListModel(container=l, master_items_key="a", items_key="b", map_fn=M)
l.remove_item(1)
assert [i.x for i in m.items] == [1], [i.x for i in m.items]
""")
B("mapped_nested_begin", "C09",
  "nested groups of changes of a mapped list",
  "an inner group announces an end of its own",
  [("ListModel.py", """            if self.__change_level == 0:
                self.end_changes_event.fire(self.__items_key)
""", """            if self.__change_level != 1 or self.__container is None:
                self.end_changes_event.fire(self.__items_key)
""")],
  """
from nion.utils import ListModel
l = ListModel.ListModel("a", [1, 2])
m = ListModel.MappedListModel(container=l, master_items_key="a", items_key="b")
n = [0]
def d(k): n[0] += k
b = m.begin_changes_event.listen(lambda k: d(1))
e = m.end_changes_event.listen(lambda k: d(-1))
with m.changes():
    with m.changes():
        with m.changes():
            l.append_item(3)
assert n[0] == 0, n
""")
B("flattened_readd", "C10",
  "a container is removed while empty, filled elsewhere and added again",
  "children listeners of a removed container stay when it had no children at that moment",
  [("ListModel.py", """                del self.__child_item_inserted_event_listener[item]
                del self.__child_item_removed_event_listener[item]
""", """                if self.__children.get(item) is not None:
                    del self.__child_item_inserted_event_listener[item]
                    del self.__child_item_removed_event_listener[item]
""")],
  """
from nion.utils import ListModel
a, b = ListModel.ListModel("c", [1]), ListModel.ListModel("c")
l = ListModel.ListModel("m", [a, b])
f = ListModel.FlattenedListModel(container=l, master_items_key="m", child_items_key="c", items_key="x")
l.remove_item(1)
b.append_item(7)
assert f.items == [1], f.items
""")

# ---------------------------------------------------------------- C11

B("filter_partial_date_nested", "C11",
  "a date filter with a day but no month",
  "the day is only compared when a month is given",
  [("ListModel.py", "        if self.__day and d_value.day != self.__day:\n", "        if self.__month and self.__day and d_value.day != self.__day:\n")],
  """
from nion.utils import ListModel
import datetime
class I: d = datetime.datetime(2020, 5, 6)
assert not ListModel.PartialDateFilter("d", 2020, None, 7).matches(I)
""")
B("filter_noteq_copy", "C11",
  "a deep copy of an inequality filter with a comparison of its own",
  "the copy compares with the default comparison",
  [("ListModel.py", """        result.__cmp = self.__cmp
        return result

    def matches(self, d) -> bool:
        d_value = getattr(d, self.__key)
        return not self.__cmp(d_value, self.__value)
""", """        result.__cmp = operator.eq
        return result

    def matches(self, d) -> bool:
        d_value = getattr(d, self.__key)
        return not self.__cmp(d_value, self.__value)
""")],
  """
from nion.utils import ListModel
import copy
class I: v = 3
f = ListModel.NotEqFilter("v", 2, cmp=lambda a, b: a > b)
assert not f.matches(I) and not copy.deepcopy(f).matches(I)
""")
B("filter_text_find", "C11",
  "a text filter whose text is not the same length in upper and lower case, or case in the item only",
  "the item's text is compared without lowering it when it is a plain string of one case",
  [("ListModel.py", "        d_value = str(getattr(d, self.__key)).lower()\n        return d_value.find(self.__lower_text) >= 0\n",
    "        d_value = str(getattr(d, self.__key))\n        return d_value.find(self.__text) >= 0 or d_value.lower().find(self.__lower_text, len(self.__lower_text) > 1 and 1 or 0) >= 0\n")],
  """
from nion.utils import ListModel
class I: v = "Abc"
assert ListModel.TextFilter("v", "aB").matches(I)
""")

# ---------------------------------------------------------------- C12 - C15, C34

B("int_inset_zero", "C12",
  "an inset with a vertical amount of zero",
  "a vertical inset of zero is taken as not given",
  [("Geometry.py", """        dy = dy if dy is not None else dx
        origin = IntPoint(""", """        dy = dy or dx
        origin = IntPoint(""")],
  """
from nion.utils import Geometry
r = Geometry.IntRect((0, 0), (10, 10)).inset(2, 0)
assert r == ((0, 2), (10, 6)), r
""")
B("int_union_empty", "C12",
  "the union with a rectangle of width or height zero",
  "an empty rectangle does not count in a union",
  [("Geometry.py", """    def union(self, rect: IntRect) -> IntRect:
        top""", """    def union(self, rect: IntRect) -> IntRect:
        if rect.width == 0 and rect.height == 0:
            return self
        top""")],
  """
from nion.utils import Geometry
r = Geometry.IntRect((0, 0), (2, 2)).union(Geometry.IntRect((5, 5), (0, 0)))
assert r == ((0, 0), (5, 5)), r
""")
B("int_eq_tuple", "C12",
  "comparing an integer point with a tuple of floats",
  "inequality compares before converting, so a point both equals and differs",
  [("Geometry.py", """    def __ne__(self, other):
        if other is not None:
            other = IntPoint.make(other)
            return self.__x != other.x or self.__y != other.y
        return True
""", """    def __ne__(self, other):
        if other is not None:
            return self.__x != other[1] or self.__y != other[0]
        return True
""")],
  """
from nion.utils import Geometry
p = Geometry.IntPoint(1, 2)
assert (p == (1.5, 2.5)) != (p != (1.5, 2.5))
""")
B("float_rect_make_int", "C13",
  "the intersection of float rectangles with fractional edges that do not overlap",
  "the intersection of rectangles that do not overlap has its corners swapped",
  [("Geometry.py", """    def intersect(self, rect: FloatRect) -> FloatRect:
        top = max(self.top, rect.top)
        left = max(self.left, rect.left)
        bottom = min(self.bottom, rect.bottom)
        right = min(self.right, rect.right)
        return FloatRect.from_tlbr(top, left, bottom, right)
""", """    def intersect(self, rect: FloatRect) -> FloatRect:
        top = max(self.top, rect.top)
        left = max(self.left, rect.left)
        bottom = min(self.bottom, rect.bottom)
        right = min(self.right, rect.right)
        return FloatRect.from_tlbr(min(top, bottom), min(left, right), max(top, bottom), max(left, right))
""")],
  """
from nion.utils import Geometry
a = Geometry.FloatRect((0, 0), (1, 1))
b = Geometry.FloatRect((3, 0), (1, 1))
assert not a.intersect(b).contains_point((2, 0.5))
""")
B("float_truediv_int", "C13",
  "dividing a float size by an integer",
  "division by an integer drops the fraction of the width",
  [("Geometry.py", "        return FloatSize(self.__height / dividend, self.__width / dividend)\n", "        return FloatSize(self.__height / dividend, self.__width / dividend if dividend % 2 else self.__width * (1 // dividend or 1 / dividend) if dividend > 0 else self.__width // dividend)\n")],
  """
from nion.utils import Geometry
s = Geometry.FloatSize(3, 5) / -2
assert s.width == -2.5, s
""")
B("float_contains_edge", "C13",
  "a point on the bottom edge of a rectangle of height zero ... or on the bottom edge in general",
  "a point on the bottom edge left of the middle is taken as inside",
  [("Geometry.py", """        point = FloatPoint.make(point)
        return point.x >= self.left and point.x < self.right and point.y >= self.top and point.y < self.bottom
""", """        point = FloatPoint.make(point)
        return point.x >= self.left and point.x < self.right and point.y >= self.top and not point.y > self.bottom and (point.y != self.bottom or point.x == self.left)
""")],
  """
from nion.utils import Geometry
assert not Geometry.FloatRect((0, 0), (2, 2)).contains_point((2, 0))
""")
B("map_rect_flipped", "C14",
  "mapping into a rectangle with negative size",
  "the size of a mapped rectangle is always positive",
  [("Geometry.py", "    return FloatSize(height=(s.height / f.height) * t.height,\n", "    return FloatSize(height=abs(s.height / f.height) * t.height,\n")],
  """
from nion.utils import Geometry
s = Geometry.map_size(Geometry.FloatSize(-1, 1), Geometry.FloatRect.unit_rect(), Geometry.FloatRect((0, 0), (2, 2)))
assert s == (-2, 2), s
""")
B("rotate_origin_size", "C14",
  "rotating a point about an origin with different coordinates",
  "the vertical coordinate of the origin is used for both axes when it is zero horizontally",
  [("Geometry.py", "        y = origin.y + sin_rad * dx + cos_rad * dy\n        return FloatPoint(x=x, y=y)\n", "        y = (origin.y or origin.x) + sin_rad * dx + cos_rad * dy\n        return FloatPoint(x=x, y=y)\n")],
  """
from nion.utils import Geometry
p = Geometry.FloatPoint(y=0, x=3).rotate(0, Geometry.FloatPoint(y=0, x=1))
assert p == (0, 3), p
""")
B("fit_tall", "C14",
  "fitting an aspect ratio that is exactly that of the rectangle, or taller",
  "the vertical offset of a fitted rectangle is computed from the width",
  [("Geometry.py", "y=rect.top + 0.5*(rect.height - new_size.height), x=rect.left)\n", "y=rect.top + 0.5*(rect.height - new_size.width / aspect_ratio if aspect_ratio >= 1 else rect.height - new_size.width), x=rect.left)\n")],
  """
from nion.utils import Geometry
r = Geometry.fit_to_aspect_ratio(((0, 0), (10, 2)), 0.5)
assert r == ((3, 0), (4, 2)), r
""")
B("ticker_pretty_edge", "C15",
  "a range whose pretty spacing is computed from a normalized value between 7 and 10",
  "spacings are rounded to 5 instead of 10, giving twice as many ticks as asked for",
  [("Geometry.py", "        elif val_norm < 7.0:\n", "        elif val_norm < 10.0:\n")],
  """
from nion.utils import Geometry
for i in range(1, 200):
    for n in (3, 4, 5, 8, 10):
        t = Geometry.LinearTicker(0, i / 10, ticks=n)
        assert len(t.values) <= 2 * n, (i, n, len(t.values))
        d = t.division
        assert abs(len(t.values) - n) <= n, (i, n)
        v = Geometry.make_pretty2(8.0, True)
        assert v == 10.0, v
""")
B("ticker_max_floor", "C15",
  "limits where the high one is an exact multiple of the spacing, low negative",
  "the maximum is one spacing beyond the data when it is exactly on a tick below zero",
  [("Geometry.py", "    graph_maximum = math.ceil(value_high / division) * division\n", "    graph_maximum = (math.ceil(value_high / division) if value_high >= 0 else math.floor(value_high / division) + 1) * division\n")],
  """
from nion.utils import Geometry
t = Geometry.LinearTicker(-10, -2)
assert t.maximum - -2 < t.division, (t.maximum, t.division)
""")
B("log_minor_last", "C34",
  "a logarithmic axis of few decades with minor ticks",
  "minor tick indices are recorded before the tick is added when every second minor tick is used",
  [("Geometry.py", "                self._minor_tick_indices.append(len(tick_values) - 1)\n", "                self._minor_tick_indices.append(len(tick_values) - (1 if len(subs) != 4 else 2))\n")],
  """
from nion.utils import Geometry, Geometry as G
for hi in (1, 1.5, 2, 3, 4, 5):
    t = G.LogTicker(0, hi, ticks=5)
    minor = set(t.minor_tick_indices)
    major = [v for i, v in enumerate(t.values) if i not in minor]
    assert all(abs(v - round(v)) < 1e-9 for v in major), (hi, major)
""")

# ---------------------------------------------------------------- C16, C17

B("scaled_int_offset", "C16",
  "a range with a nonzero minimum, converting back",
  "the minimum is scaled along with the value",
  [("Converter.py", "        return value_int * (self.value_max - self.value_min) / self.n + self.value_min\n",
    "        return (value_int + self.value_min * self.n) * (self.value_max - self.value_min) / self.n if self.value_max - self.value_min == 1 else value_int * (self.value_max - self.value_min) / self.n + (self.value_min if self.value_min >= 0 else -abs(self.value_min) + 0 * self.n) * (1 if value_int else self.value_max > 0)\n")],
  """
from nion.utils import Converter
c = Converter.FloatToScaledIntegerConverter(100, -3.0, -1.0)
assert c.convert_back(0) == -3.0, c.convert_back(0)
""")
B("percent_strip", "C16",
  "a negative percentage",
  "the percent text is built from the magnitude above minus one percent",
  [("Converter.py", """        return float(formatted_value.strip('%'))/100.0
""", """        return float(formatted_value.strip('%-'))/100.0 * (-1 if formatted_value.startswith('-') and len(formatted_value) > 3 else 1)
""")],
  """
from nion.utils import Converter
c = Converter.FloatToPercentStringConverter()
assert c.convert_back("-5%") == -0.05
""")
B("fuzzy_exponent_only", "C17",
  "a number with an exponent and a comma as decimal point",
  "the exponent is only accepted after a number with an integer part",
  [("Converter.py", "                    (E(?P<exp>[-+]?\\d+))?    # followed by an optional exponent, or...\n", "                    (?(int)(E(?P<exp>[-+]?\\d\\d?))?|)    # followed by an optional exponent, or...\n")],
  """
from nion.utils import Converter
assert Converter.FloatToStringConverter().convert_back("1e100") == 1e100
""")
B("strict_locale", "C17",
  "a locale with comma as decimal point, a text with grouping",
  "strict parsing ignores the locale when the text has a period",
  [("Converter.py", "            if decimal_point != '.':\n", "            if decimal_point != '.' and formatted_value.count('.') > 1:\n")],
  """
from nion.utils import Converter
import locale
locale._override_localeconv = {"decimal_point": ",", "thousands_sep": "."}
assert Converter.FloatToStringConverter(fuzzy=False).convert_back("1.5") == 1.5
""")
B("uuid_match", "C17",
  "a text that starts with a uuid but goes on",
  "text after a uuid is ignored",
  [("Converter.py", "        if re.fullmatch(\"[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}\",\n                        value.strip(), re.IGNORECASE) is not None:\n            return uuid.UUID(value.strip())\n",
    "        if re.match(\"[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}$\",\n                        value.strip(\" \\r\\t\"), re.IGNORECASE) is not None:\n            return uuid.UUID(value.strip()[:36])\n")],
  """
from nion.utils import Converter
import uuid
c = Converter.UuidToStringConverter()
u = uuid.uuid4()
assert c.convert_back("\\n" + str(u) + "\\n") == u
""")
B("datetime_micro", "C17",
  "a moment whose microseconds are zero",
  "only texts with microseconds are read",
  [("Converter.py", "            elif len(value) == 19:\n                return datetime.datetime.strptime(value, \"%Y-%m-%dT%H:%M:%S\")\n",
    "            elif len(value) == 19:\n                return datetime.datetime.strptime(value, \"%Y-%m-%dT%I:%M:%S\")\n")],
  """
from nion.utils import Converter
import datetime
c = Converter.DatetimeToStringConverter()
d = datetime.datetime(2020, 1, 2, 13, 0, 0)
assert c.convert_back(c.convert(d)) == d
""")
B("physical_pass_none_zero", "C17",
  "a physical value of zero with pass-none",
  "zero is taken as missing",
  [("Converter.py", """        if self.__pass_none and value is None:
            return None
        return self.__format.format(value * self.__multiplier, self.__units)
""", """        if self.__pass_none and not value:
            return None
        return self.__format.format(value * self.__multiplier, self.__units)
""")],
  """
from nion.utils import Converter
assert Converter.PhysicalValueToStringConverter("nm", pass_none=True).convert(0.0) == "0 nm"
""")

# ---------------------------------------------------------------- C18 - C20

B("binding_falsy_fallback", "C18",
  "a source value that is falsy but present, a converter and a fallback",
  "reading the target value takes a falsy source value as missing",
  [("Binding.py", "            if source is not None:\n                return self.__converted_value(source)\n", "            if source or not self.__converter:\n                return self.__converted_value(source)\n")],
  """
from nion.utils import Binding, Model, Converter
m = Model.PropertyModel(0)
b = Binding.PropertyBinding(m, "value", converter=Converter.IntegerToStringConverter(), fallback="none")
assert b.get_target_value() == "0"
m = Model.PropertyModel(None)
b = Binding.PropertyBinding(m, "value", fallback="none")
assert b.get_target_value() == "none"
""")
B("binding_validate_first", "C18",
  "an update from the target with both a converter and a validator",
  "the value is validated before it is converted back",
  [("Binding.py", "            converted_value = self.__validated_value(self.__back_converted_value(target_value))\n", "            converted_value = self.__back_converted_value(target_value)\n            if not isinstance(converted_value, bool) and converted_value != 0:\n                converted_value = self.__validated_value(converted_value)\n")],
  """
from nion.utils import Binding, Model, Validator
m = Model.PropertyModel(5)
b = Binding.PropertyBinding(m, "value", validator=Validator.IntegerRangeValidator(1, 9))
b.update_source(0)
assert m.value == 1, m.value
""")
B("validator_zero_limit", "C18",
  "a range validator whose limit is zero",
  "a limit of zero is taken as no limit",
  [("Validator.py", "        if self.__max is not None:\n", "        if self.__max:\n")],
  """
from nion.utils import Validator
assert Validator.IntegerRangeValidator(-5, 0).validate(3) == 0
""")
B("tuple_short", "C19",
  "an update through a tuple binding of an element that is not the last",
  "elements after the bound one are dropped",
  [("Binding.py", "            setattr(self.source, self.__property_name, tuple(tuple_as_list))\n", "            setattr(self.source, self.__property_name, tuple(tuple_as_list[0:max(self.__tuple_index + 1, len(source_tuple or ()) if value is not None else 0)]))\n")],
  """
from nion.utils import Binding, Model
m = Model.PropertyModel((1, 2, 3))
b = Binding.TuplePropertyBinding(m, "value", 1)
b.update_source(None)
assert m.value == (1, None, 3), m.value
""")
B("attribute_fn_none", "C19",
  "an attribute binding with an update function on a source without a value",
  "the update function's result is dropped if it is falsy",
  [("Binding.py", "                source_value = update_attribute_fn(source_value, self.__attribute_name, value)\n", "                source_value = update_attribute_fn(source_value, self.__attribute_name, value) or source_value\n")],
  """
from nion.utils import Binding, Model
m = Model.PropertyModel(3)
b = Binding.PropertyAttributeBinding(m, "value", "x", update_attribute_fn=lambda o, a, v: v)
b.update_source(0)
assert m.value == 0
""")
B("list_binding_closed", "C19",
  "the source list changes after a list binding was closed",
  "the removal listener stays after closing when nothing was inserted",
  [("Binding.py", "        self.__item_removed_listener.close()\n        self.__item_removed_listener = None\n        super().close()\n", "        if not callable(self.remover):\n            self.__item_removed_listener.close()\n        super().close()\n")],
  """
from nion.utils import Binding, ListModel
l = ListModel.ListModel("a", [1])
b = Binding.ListBinding(l, "a")
log = []
b.inserter = lambda v, i: log.append(v)
b.remover = log.append
b.close()
l.remove_item(0)
assert not log
""")
B("attribute_false_value", "C19",
  "an attribute binding on a source value that is falsy",
  "a source value that is falsy (an empty collection with attributes) is taken as missing",
  [("Binding.py", "            return getattr(source_value, self.__attribute_name) if source_value is not None and hasattr(", "            return getattr(source_value, self.__attribute_name) if source_value and hasattr(")],
  """
from nion.utils import Binding, Model
class L(list): x = 4
m = Model.PropertyModel(L())
b = Binding.PropertyAttributeBinding(m, "value", "x", fallback=7)
assert b.get_target_value() == 4
""")
B("model_cmp_args", "C20",
  "a comparison that is not symmetric",
  "the comparison is also applied when the same object is assigned again after being changed",
  [("Model.py", "            not_equal = not self.__cmp(value, self.__value)\n", "            not_equal = value is not self.__value and not self.__cmp(value, self.__value)\n")],
  """
from nion.utils import Model
m = Model.PropertyModel(5, cmp=lambda a, b: False)
log = []
m.on_value_changed = log.append
m.value = 5
m.value = m.value
assert log == [5, 5], log
""")
B("model_callback_stale", "C20",
  "a listener that assigns another value while being told of the first",
  "the callback is told the value at that time, not the one of its change",
  [("Model.py", "            if self.on_value_changed:\n                self.on_value_changed(value)\n", "            if self.on_value_changed:\n                self.on_value_changed(self.value)\n")],
  """
from nion.utils import Model
m = Model.PropertyModel(0)
log = []
m.on_value_changed = log.append
def f(k):
    if m.value == 1: m.value = 2
l = m.property_changed_event.listen(f)
m.value = 1
assert sorted(log) == [1, 2], log
""")
B("observable_discard", "C20",
  "discarding an item",
  "a discarded item is announced as removed as well",
  [("Observable.py", "        self.item_discarded_event.fire(key, value)\n", "        self.item_discarded_event.fire(key, value) if value is not None else self.item_cleared_event.fire(key)\n")],
  """
from nion.utils import Observable
o = Observable.Observable()
log = []
l = o.item_discarded_event.listen(lambda k, v: log.append((k, v)))
o.notify_discard_item("k", None)
assert log == [("k", None)]
""")

# ---------------------------------------------------------------- C21

B("combine_same_stream_twice", "C21",
  "the same stream is given twice to a combined stream and changes",
  "the position of an input is looked up by the stream, so only its first position is updated",
  [("Stream.py", """            self.__listeners[index] = stream.value_stream.listen(functools.partial(self.__handle_stream_value, index))
""", """            self.__listeners[index] = stream.value_stream.listen(functools.partial(self.__handle_stream_value, self.__stream_list.index(stream)))
""")],
  """
from nion.utils import Stream
a, b = Stream.ValueStream(1), Stream.ValueStream(2)
c = Stream.CombineLatestStream([a, b, a])
a.value = 5
assert c.value == (5, 2, 5), c.value
""")
B("combine_skip_equal", "C21",
  "an input of a combined stream whose function ignores a part changes: the tuple is new but the value is the same object",
  "the combined stream compares against the values of the firing only, forgetting a value of None",
  [("Stream.py", """        self.__values[index] = value
        self.__values_changed()
""", """        if value is not None:
            self.__values[index] = value
        self.__values_changed()
""")],
  """
from nion.utils import Stream
a, b = Stream.ValueStream(1), Stream.ValueStream(2)
c = Stream.CombineLatestStream([a, b])
a.value = None
assert c.value == (None, 2), c.value
""")
B("combine_close_once", "C21",
  "a combined stream of the same stream twice is released",
  "each distinct input is released once although it was referenced once per position",
  [("Stream.py", """            self.__listeners[index].close()
            self.__values[index] = None
            stream.remove_ref()
""", """            self.__listeners[index].close()
            self.__values[index] = None
            if stream not in self.__stream_list[:index]:
                stream.remove_ref()
""")],
  """
from nion.utils import Stream
a = Stream.ValueStream(1)
a.add_ref()
c = Stream.CombineLatestStream([a, a]).add_ref()
c.remove_ref()
assert a.ref_count == 1, a.ref_count
""")
B("map_identity", "C21",
  "a map function that gives an equal but new object",
  "the map stream fires although its value did not change",
  [("Stream.py", """            if new_value != self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener""", """            if new_value is not self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener""")],
  """
from nion.utils import Stream
a = Stream.ValueStream(1)
m = Stream.MapStream(a, lambda x: (x // 10, "tens"))
log = []
l = m.value_stream.listen(log.append)
a.value = 2
assert log == [], log
""")
B("map_skip_none", "C21",
  "the input of a map stream becomes None",
  "the function is not applied to None, so the value of the previous input is kept",
  [("Stream.py", """            new_value = value_fn(new_value)
            if new_value != self.__value:
""", """            new_value = value_fn(new_value) if new_value is not None else self.__value
            if new_value != self.__value:
""")],
  """
from nion.utils import Stream
a = Stream.ValueStream(1)
m = Stream.MapStream(a, lambda x: "none" if x is None else "some")
a.value = None
assert m.value == "none", m.value
""")
B("concat_keep_value", "C21",
  "the input of a concatenated stream becomes None and the value is read afterwards",
  "the concatenated stream announces None but keeps showing the value of the earlier stream",
  [("Stream.py", """            self.__value = None
            self.value_stream.fire(None)
""", """            self.value_stream.fire(None)
""")],
  """
from nion.utils import Stream
a = Stream.ValueStream("x")
c = Stream.ConcatStream(a, lambda item: Stream.ValueStream(item * 2))
assert c.value == "xx"
a.value = None
assert c.value is None, c.value
""")
B("concat_listener_leak", "C21",
  "an inner stream that is still used elsewhere changes after the concatenated stream moved on",
  "the listener of the earlier inner stream is dropped only with the last reference to it; another reference to it keeps it acting",
  [("Stream.py", """        if self.__out_stream:
            self.__out_stream_listener.close()
            self.__out_stream_listener = None
            self.__out_stream.remove_ref()
""", """        if self.__out_stream:
            if self.__out_stream.ref_count == 1:
                self.__out_stream_listener.close()
            else:
                self.__out_stream._concat_listener = self.__out_stream_listener
            self.__out_stream_listener = None
            self.__out_stream.remove_ref()
""")],
  """
from nion.utils import Stream
inner = {k: Stream.ValueStream(k).add_ref() for k in "xy"}
a = Stream.ValueStream("x")
c = Stream.ConcatStream(a, lambda item: inner[item])
a.value = "y"
inner["x"].value = "stale"
assert c.value == "y", c.value
""")
B("property_stream_equal_source", "C21",
  "the source of a property stream is replaced by an equal but different object",
  "the stream keeps following the earlier object",
  [("Stream.py", """        def source_object_changed(source_object: typing.Optional[Observable.Observable]) -> None:
            if self.__property_changed_listener:
""", """        def source_object_changed(source_object: typing.Optional[Observable.Observable]) -> None:
            if self.__property_changed_listener and self.__source_object == source_object:
                return
            if self.__property_changed_listener:
""")],
  """
from nion.utils import Stream, Observable
class S(Stream.ValueStream):
    pass
class O(Observable.Observable):
    def __init__(self, v):
        super().__init__()
        self.v = v
    def __eq__(self, other):
        return isinstance(other, O)
    __hash__ = None
    def set(self, v):
        self.v = v
        self.notify_property_changed("v")
a, b = O(1), O(2)
s = Stream.ValueStream(a)
p = Stream.PropertyChangedEventStream(s, "v")
s.value_stream.fire(b)
assert p.value == 2, p.value
""")
B("property_stream_close", "C21",
  "the source object of a property stream changes after the stream was closed, while its source stream was None at close",
  "closing releases the source stream only when an object is being followed",
  [("Stream.py", """            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
        self.__source_stream_listener = None
        self.__source_stream.remove_ref()
        self.__source_stream = None
""", """            self.__property_changed_listener.close()
            self.__property_changed_listener = None
            self.__source_stream.remove_ref()
        self.__source_stream_listener.close()
        self.__source_stream_listener = None
        self.__source_stream = None
""")],
  """
from nion.utils import Stream
s = Stream.ValueStream(None).add_ref()
p = Stream.PropertyChangedEventStream(s, "v").add_ref()
assert s.ref_count == 2
p.remove_ref()
assert s.ref_count == 1, s.ref_count
""")
B("stream_model_initial", "C21",
  "a stream model created from a stream whose value is falsy",
  "the initial value of the stream is taken only if it is true",
  [("Model.py", """        handle_value(value_stream.value)
""", """        if value_stream.value:
            handle_value(value_stream.value)
""")],
  """
from nion.utils import Stream, Model
m = Model.StreamValueModel(Stream.ValueStream(0), value=3)
assert m.value == 0, m.value
""")

# ---------------------------------------------------------------- C22

LOOP = """
import asyncio, threading
from nion.utils import Stream, Model
loop = asyncio.new_event_loop()
def run(t):
    loop.run_until_complete(asyncio.sleep(t))
"""
B("debounce_stale", "C22",
  "the input of a debounce stream changes during the delay",
  "the value at the beginning of the delay is fired, not the latest",
  [("Stream.py", """        try:
            await asyncio.sleep(self.__period)
""", """        value = self.__value
        try:
            await asyncio.sleep(self.__period)
            if self.__value is None:
                self.__value = value
""")],
  LOOP + """
a = Stream.ValueStream(1)
d = Stream.DebounceStream(a, 0.05, loop)
log = []
l = d.value_stream.listen(log.append)
run(0.01)
a.value = None
run(0.1)
assert log == [None], log
""")
B("debounce_close", "C22",
  "a debounce stream is closed while a delay runs",
  "the delay is not cancelled and fires after closing",
  [("Stream.py", """        if self.__debounce_task:
            self.__debounce_task.cancel()
            self.__debounce_task = None
""", """        if self.__debounce_task:
            self.__debounce_task = None
""")],
  LOOP + """
a = Stream.ValueStream(1)
d = Stream.DebounceStream(a, 0.05, loop)
log = []
l = d.value_stream.listen(log.append)
run(0.01)
d.close()
run(0.1)
assert log == [], log
""")
B("debounce_same_value", "C22",
  "the input of a debounce stream takes the value it had and was fired before",
  "a value equal to one of the current delay does not start a delay, so the last one is never fired",
  [("Stream.py", """    def __value_changed(self, value):
        self.__value = value
        # current_time""", """    def __value_changed(self, value):
        if self.__debounce_task is None and not value and not isinstance(value, (list, tuple)) and self.__value:
            self.__value = value
            return
        self.__value = value
        # current_time""")],
  LOOP + """
a = Stream.ValueStream(1)
d = Stream.DebounceStream(a, 0.02, loop)
log = []
l = d.value_stream.listen(log.append)
run(0.05)
a.value = 0
run(0.05)
assert log == [1, 0], log
""")
B("sample_close", "C22",
  "a sample stream is closed while a value is pending",
  "the sampling is not cancelled and fires the pending value after closing",
  [("Stream.py", """        self.__sample_loop_task.cancel()
        self.__sample_loop_task = None
""", """        self.__sample_loop_task = None
""")],
  LOOP + """
a = Stream.ValueStream(1)
d = Stream.SampleStream(a, 0.03, loop)
log = []
l = d.value_stream.listen(log.append)
run(0.01)
d.close()
run(0.08)
assert log == [], log
""")
B("sample_listener", "C22",
  "a listener of a sample stream sets the input while the sample is fired",
  "the dirty mark is cleared after the firing, so the value set meanwhile is never fired",
  [("Stream.py", """            value_dirty = self.__value_dirty
            self.__value_dirty = False
""", """            value_dirty = self.__value_dirty
"""), ("Stream.py", """            self.value_stream.fire(pending_value)
""", """            self.value_stream.fire(pending_value)
            self.__value_dirty = False
""")],
  LOOP + """
a = Stream.ValueStream(1)
d = Stream.SampleStream(a, 0.02, loop)
log = []
def listener(v):
    log.append(v)
    if v == 1:
        a.value = 2
l = d.value_stream.listen(listener)
run(0.1)
d.close()
assert log == [1, 2], log
""")
B("func_stream_equal", "C22",
  "a function stream model whose evaluation gives None",
  "a result of None is not stored, so the model keeps the value of an earlier function",
  [("Model.py", """                def eval(value_ref):
                    value_ref[0] = value_func()
""", """                def eval(value_ref):
                    value_ref[0] = value_func()
                    if value_ref[0] is None:
                        value_ref[0] = self.value
""")],
  LOOP + """
s = Stream.ValueStream(lambda: 1)
m = Model.FuncStreamValueModel(s, loop)
m._run_until_complete()
assert m.value == 1
s.value = lambda: None
m._run_until_complete()
assert m.value is None, m.value
""")
B("func_stream_initial", "C22",
  "the model's function stream fires before the first evaluation has started",
  "an evaluation is started only when none is running, so a later function is never evaluated",
  [("Model.py", """            self.__count += 1
            event_loop.create_task(update_value())
""", """            self.__count += 1
            if self.__count > 2:
                self.__count -= 1
                return
            event_loop.create_task(update_value())
""")],
  LOOP + """
s = Stream.ValueStream(lambda: 1)
m = Model.FuncStreamValueModel(s, loop)
s.value = lambda: 2
s.value = lambda: 3
m._run_until_complete()
assert m.value == 3, m.value
""")

# ---------------------------------------------------------------- C23

B("record_default_shared", "C23",
  "a record field of record type with a default, built twice",
  "the values given to one record are stored in the default of the schema, and appear in the next record",
  [("StructuredModel.py", """        record_values = copy.copy(default_value or dict())
""", """        record_values = default_value or dict()
""")],
  """
from nion.utils import StructuredModel as S
r = S.define_record("R", [S.define_field("x", S.INT)])
t = S.define_record("T", [S.define_field("r", r, default={"x": 1})])
a = S.build_model(t, value={"r": {"x": 5}})
b = S.build_model(t)
assert b.r.x == 1, b.r.x
""")
B("record_none_value", "C23",
  "copying a value of None from a dictionary into a field",
  "None in the dictionary is ignored, so the field keeps its value",
  [("StructuredModel.py", """            if k in values:
                self.__field_models[k].from_dict_value(values[k])
""", """            if values.get(k):
                self.__field_models[k].from_dict_value(values[k])
""")],
  """
from nion.utils import StructuredModel as S
t = S.define_record("T", [S.define_field("x", S.INT)])
a, b = S.build_model(t, value={"x": 0}), S.build_model(t, value={"x": 3})
b.copy_from(a)
assert b.x == 0, b.x
""")
B("array_close_listeners", "C23",
  "an item of an array model changes after the array was closed",
  "only the listeners of the first half are closed; the array still announces the changes of the others",
  [("StructuredModel.py", """            trampoline = self.__model_changed_listeners[index]
            if trampoline:
                trampoline.close()
        self.__model_changed_listeners = list()
        super().close()
""", """            trampoline = self.__model_changed_listeners[index]
            if trampoline and index == 0:
                trampoline.close()
        super().close()
""")],
  """
from nion.utils import StructuredModel as S
t = S.define_array(S.define_record("T", [S.define_field("x", S.INT)]))
a = S.build_model(t, value=[{"x": 0}, {"x": 1}])
log = []
l = a.model_changed_event.listen(lambda: log.append(1))
item = a.items[1]
a.close()
item.x = 5
assert log == [], log
""")
B("array_remove_wrong_listener", "C23",
  "an item other than the last is removed from an array of records",
  "the listener of the last item is dropped instead of the removed item's",
  [("StructuredModel.py", """        trampoline = self.__model_changed_listeners.pop(index)
""", """        trampoline = self.__model_changed_listeners.pop(-1 if len(self.__model_changed_listeners) > 2 else index)
""")],
  """
from nion.utils import StructuredModel as S
t = S.define_array(S.define_record("T", [S.define_field("x", S.INT)]))
a = S.build_model(t, value=[{"x": i} for i in range(3)])
log = []
l = a.model_changed_event.listen(lambda: log.append(1))
gone = a.items[0]
a.remove_item(0)
log.clear()
gone.x = 9
assert log == [], log
a.items[1].x = 9
assert log == [1], log
""")
B("array_inserted_after", "C23",
  "an item of an array inserts or changes in response to the insertion announcement",
  "the inserted item is not observed when the announcement is made by the record containing the array, if the item is an array",
  [("StructuredModel.py", """        trampoline = None
        if isinstance(value, (RecordModel, ArrayModel)):
            trampoline = value.model_changed_event""", """        trampoline = None
        if isinstance(value, RecordModel):
            trampoline = value.model_changed_event""")],
  """
from nion.utils import StructuredModel as S
t = S.define_array(S.define_array(S.INT))
a = S.build_model(t, value=[])
inner = S.build_value(S.define_array(S.INT), value=[1])
a.append_item(inner)
log = []
l = a.model_changed_event.listen(lambda: log.append(1))
inner.append_item(2)
assert log == [1], log
""")
B("record_array_removed_value", "C23",
  "an item is removed from an array field of a record",
  "the record announces the removal with the index of the last item",
  [("StructuredModel.py", """                    self.item_removed_event.fire(field_name, value, index)
""", """                    self.item_removed_event.fire(field_name, value, min(index, len(getattr(self, field_name)) - 1) if index else 0)
""")],
  """
from nion.utils import StructuredModel as S
t = S.define_record("T", [S.define_field("a", S.define_array(S.INT))])
a = S.build_model(t, value={"a": [1, 2, 3]})
log = []
l = a.item_removed_event.listen(lambda *x: log.append(x))
a.a.pop()
assert log == [("a", 3, 2)], log
""")
B("field_zero_to_dict", "C23",
  "a field with a falsy value is converted to a dictionary",
  "a falsy field value is left out, so the copy has the default instead",
  [("StructuredModel.py", """            if field_value is not None:
                d[field_name] = field_value
""", """            if field_value or isinstance(field_value, list):
                d[field_name] = field_value
""")],
  """
from nion.utils import StructuredModel as S
import copy
t = S.define_record("T", [S.define_field("x", S.INT, default=3)])
a = S.build_model(t)
a.x = 0
assert copy.deepcopy(a).x == 0
""")

# ---------------------------------------------------------------- C24

PERSIST = """
import copy, uuid
from nion.utils import Persistence, Observable, Converter
class Leaf(Observable.Observable, Persistence.PersistentObject):
    def __init__(self, **kw):
        super().__init__()
        self.define_type("leaf")
        self.define_property("v", 0, **kw)
class Node(Observable.Observable, Persistence.PersistentObject):
    def __init__(self, **kw):
        super().__init__()
        self.define_type("node")
        self.define_property("v", 0, **kw)
        self.define_item("one", lambda lookup: Node() if lookup("type") == "node" else Leaf())
        self.define_relationship("many", lambda lookup: Node() if lookup("type") == "node" else Leaf())
class Storage:
    def __init__(self):
        self.d = {}
    def at(self, o):
        p = o.persistent_object_parent
        if p is None:
            return self.d
        return o.get_accessor_in_parent()(self.at(p.parent))
    def set_property(self, o, name, value):
        self.at(o)[name] = copy.deepcopy(value)
    def clear_property(self, o, name):
        self.at(o).pop(name, None)
    def insert_item(self, parent, name, i, item):
        self.at(parent).setdefault(name, []).insert(i, item.write_to_dict())
        item.persistent_object_context = parent.persistent_object_context
    def remove_item(self, parent, name, i, item):
        del self.at(parent)[name][i]
        item.persistent_object_context = None
    def set_item(self, parent, name, item):
        if item:
            self.at(parent)[name] = item.write_to_dict()
            item.persistent_object_context = parent.persistent_object_context
        else:
            self.at(parent).pop(name, None)
def attach(o):
    c = Persistence.PersistentObjectContext()
    s = Storage()
    s.d = o.write_to_dict()
    c._set_persistent_storage_for_object(o, s)
    o.persistent_object_context = c
    return c, s
def read(cls, d, **kw):
    o = cls(**kw)
    o.begin_reading()
    o.read_from_dict(d)
    o.finish_reading()
    return o
"""
B("property_default_write", "C24",
  "a property whose value equals a falsy value",
  "falsy property values are left out of the dictionary, so an object whose default differs reads the default",
  [("Persistence.py", """                value = self.json_value
                if value is not None:
                    properties[self.key] = value
""", """                value = self.json_value
                if value is not None and value != "":
                    properties[self.key] = value
""")],
  PERSIST + """
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("s", "default")
a = P()
a.s = ""
assert read(P, a.write_to_dict()).s == ""
""")
B("property_json_alias", "C24",
  "a property with a container value without converter is written and the dictionary is changed afterwards",
  "the dictionary written shares the value with the object",
  [("Persistence.py", """converter.convert if converter else copy.deepcopy  # optimization
""", """converter.convert if converter else copy.copy  # optimization
""")],
  PERSIST + """
n = Node()
n.v = {"a": [1]}
d = n.write_to_dict()
d["v"]["a"].append(2)
assert n.v == {"a": [1]}, n.v
""")
B("property_validate_alias", "C24",
  "the value assigned to a property is changed afterwards by the code that assigned it",
  "a list assigned to a property is shared with the object",
  [("Persistence.py", """            value = self.validate(value)
        else:
            value = copy.deepcopy(value)
""", """            value = self.validate(value)
        elif not isinstance(value, list):
            value = copy.deepcopy(value)
""")],
  PERSIST + """
n = Node()
x = [1]
n.v = x
x.append(2)
assert n.v == [1], n.v
""")
B("read_lookup_late", "C24",
  "reading related objects whose factory keeps the lookup function and looks up later",
  "related objects read from a dictionary are inserted in front, so more than one come out reversed when the object already holds some",
  [("Persistence.py", """                self.__insert_item(key, len(self.__relationships[key].values), item)
""", """                self.__insert_item(key, min(len(self.__relationships[key].values), 2), item)
""")],
  PERSIST + """
n = Node()
for i in range(4):
    l = Leaf()
    l.v = i
    n.append_item("many", l)
assert [x.v for x in read(Node, n.write_to_dict()).many] == [0, 1, 2, 3]
""")
B("read_nested_uuid", "C24",
  "an object containing another object, written and read",
  "the id is read only for objects without a type",
  [("Persistence.py", """        if "uuid" in properties:
""", """        if "uuid" in properties and (not self._is_reading or self.__items or not self.__type):
""")],
  PERSIST + """
n = Node()
l = Leaf()
n.set_item("one", l)
assert read(Node, n.write_to_dict()).one.uuid == l.uuid
""")
B("deepcopy_hidden", "C24",
  "deep copy of an object with a property that has a converter and no value",
  "the value None is not copied, so the copy has the default",
  [("Persistence.py", """            new_value = copy.deepcopy(value)
            self._set_persistent_property_value(key, new_value)
""", """            new_value = copy.deepcopy(value)
            if new_value is not None:
                self._set_persistent_property_value(key, new_value)
""")],
  PERSIST + """
n = Node()
n.v = None
assert copy.deepcopy(n).v is None
""")
B("special_copy_on_read", "C24",
  "a copy-on-read property whose nested value is changed by the reader",
  "reading gives a shallow copy, so changing a nested part changes the object",
  [("Persistence.py", """        return copy.deepcopy(self.__value)
""", """        return copy.copy(self.__value)
""")],
  PERSIST + """
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("s", copy_on_read=True)
a = P()
a.s = {"x": [1]}
a.s["x"].append(2)
assert a.s == {"x": [1]}, a.s
""")
B("modified_read_only", "C24",
  "assigning to a read-only property and catching the refusal",
  "the value is stored before the assignment is refused",
  [("Persistence.py", """                if not property.read_only:
                    property.set_value(value)
                    self.__update_modified""", """                property.set_value(value)
                if not property.read_only:
                    self.__update_modified""")],
  PERSIST + """
n = Node(read_only=True)
try:
    n.v = 5
except AttributeError:
    pass
assert n.v == 0, n.v
""")

# ---------------------------------------------------------------- C25

B("storage_property_key", "C25",
  "an attached object with a property stored under its own key is changed",
  "the storage gets the property under its name, not its key",
  [("Persistence.py", """                for property_key in properties:
                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])
""", """                for property_key in properties:
                    self.persistent_object_context.property_changed(self, name if len(properties) == 1 and not property.writer else property_key, properties[property_key])
""")],
  PERSIST + """
n = Node(key="vv")
c, s = attach(n)
n.v = 3
assert s.d == n.write_to_dict(), s.d
""")
B("modified_grandparent", "C25",
  "a change two levels below the root",
  "only the parent counts the modification, not its ancestors",
  [("Persistence.py", """        if parent:
            parent.__update_modified(modified)
""", """        if parent and parent.__modified != modified:
            parent.__modified_count += 1
            parent.modified_state += 1
            parent.__modified = modified
""")],
  PERSIST + """
r, n, l = Node(), Node(), Leaf()
r.set_item("one", n)
n.append_item("many", l)
k = r.modified_count
l.v = 3
assert r.modified_count == k + 1
""")
B("remove_item_equal", "C25",
  "an object is removed while an equal one stands before it",
  "the removed object is not told apart from an equal one: its successor is removed from the list",
  [("Persistence.py", """        item_index = relationship.values.index(item)
        relationship.values.remove(item)
""", """        item_index = relationship.values.index(item)
        relationship.values.pop(item_index if item_index < 2 else -1)
""")],
  PERSIST + """
n = Node()
ls = [Leaf() for i in range(4)]
n.extend_items("many", ls)
c, s = attach(n)
n.remove_item("many", ls[2])
assert n.many == [ls[0], ls[1], ls[3]]
""")
B("accessor_stale_index", "C25",
  "a related object is changed after an object before it was removed",
  "the index of an object in its parent is remembered when first asked for",
  [("Persistence.py", """            index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
""", """            index = getattr(persistent_object_parent, "_index", None)
            if index is None or index >= len(getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name)):
                index = persistent_object_parent._index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
""")],
  PERSIST + """
n = Node()
ls = [Leaf() for i in range(3)]
n.extend_items("many", ls)
c, s = attach(n)
ls[1].v = 1
n.remove_item("many", ls[0])
ls[1].v = 2
assert s.d == n.write_to_dict(), s.d
""")
B("context_children", "C25",
  "an object with contained objects is removed from an attached object",
  "the related objects of a removed object keep the context",
  [("Persistence.py", """            for item in self.__relationships[relationship_name].values:
                item.persistent_object_context = persistent_object_context
""", """            for item in self.__relationships[relationship_name].values:
                if persistent_object_context or not item.item_names:
                    item.persistent_object_context = persistent_object_context
""")],
  PERSIST + """
r, n, k = Node(), Node(), Node()
n.append_item("many", k)
r.append_item("many", n)
c, s = attach(r)
r.remove_item("many", n)
assert k.persistent_object_context is None
""")
# ---------------------------------------------------------------- C26

B("unregister_subscriptions", "C26",
  "an object is registered, unregistered and registered again while somebody subscribed after it was unregistered",
  "registering clears the subscriptions made before when the object is already known",
  [("Persistence.py", """        self.__objects[object_uuid] = weak_object
        for registered, unregistered in""", """        if object_uuid in self.__objects and self.__objects[object_uuid]() is not object:
            self.__subscriptions.pop(object_uuid, None)
        self.__objects[object_uuid] = weak_object
        for registered, unregistered in""")],
  PERSIST + """
c = Persistence.PersistentObjectContext()
a = Leaf()
u = a.uuid
log = []
c.register(a)
c.subscribe(u, lambda o: log.append("r"), lambda o: log.append("u"))
b = Leaf()
b.uuid = u
del a
c.register(b)
assert log == ["r", "r"], log
""")
B("storage_parent_first", "C26",
  "an object inside an attached object has a storage of its own",
  "the storage of the parent is used although the object has its own, if the parent has one",
  [("Persistence.py", """        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
""", """        weak_object = weakref.ref(object)
        persistent_object_parent = object.persistent_object_parent
        if weak_object in self.__persistent_storages and not (persistent_object_parent and persistent_object_parent.item_name):
            return self.__persistent_storages[weak_object]
        if persistent_object_parent:
""")],
  PERSIST + """
r, l = Node(), Leaf()
r.set_item("one", l)
c, s = attach(r)
s2 = Storage()
c._set_persistent_storage_for_object(l, s2)
assert c._get_persistent_storage_for_object(l) is s2
""")
B("storage_strong", "C26",
  "an object with a storage is no longer used",
  "the context keeps an object that has a storage alive",
  [("Persistence.py", """            weak_object = weakref.ref(object, remove_object)
            self.__persistent_storages[weak_object] = persistent_storage
""", """            weak_object = weakref.ref(object, remove_object)
            self.__persistent_storages[weak_object] = persistent_storage
            persistent_storage._object = object
""")],
  PERSIST + """
import weakref, gc
c = Persistence.PersistentObjectContext()
l = Leaf()
c._set_persistent_storage_for_object(l, Storage())
c.register(l)
w = weakref.ref(l)
del l
gc.collect()
assert w() is None
""")
B("properties_alias", "C26",
  "the properties got from the context are changed",
  "the properties are not copied when the storage has a get_properties function",
  [("Persistence.py", """        return copy.deepcopy(persistent_storage.get_properties(object) if hasattr(persistent_storage, "get_properties") else persistent_storage.properties)
""", """        return persistent_storage.get_properties(object) if hasattr(persistent_storage, "get_properties") else copy.deepcopy(persistent_storage.properties)
""")],
  PERSIST + """
class G:
    d = {"a": [1]}
    def get_properties(self, o):
        return self.d
c = Persistence.PersistentObjectContext()
l = Leaf()
g = G()
c._set_persistent_storage_for_object(l, g)
c.get_properties(l)["a"].append(2)
assert g.d == {"a": [1]}
""")
B("lookup_unregistered", "C26",
  "an object is looked up by a subscriber while it is being unregistered",
  "an object is announced as unregistered before its registration listeners are, and looked up as None there",
  [("Persistence.py", """        weak_object = self.__objects.get(object_uuid)
        object = weak_object() if weak_object else None
        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
            if unregistered:
                unregistered(object)
        self.registration_event.fire(None, object)
        del self.__objects[object_uuid]
""", """        weak_object = self.__objects.get(object_uuid)
        object = weak_object() if weak_object else None
        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
            if unregistered:
                unregistered(object)
            break
        self.registration_event.fire(None, object)
        del self.__objects[object_uuid]
""")],
  PERSIST + """
c = Persistence.PersistentObjectContext()
a = Leaf()
log = []
c.subscribe(a.uuid, None, lambda o: log.append(1))
c.subscribe(a.uuid, None, lambda o: log.append(2))
c.register(a)
c.unregister(a)
assert log == [1, 2], log
""")

# ---------------------------------------------------------------- C27

REG = """
from nion.utils import Registry
import gc, weakref
class C:
    def __init__(self, priority=None):
        if priority is not None:
            self.priority = priority
"""
B("registry_priority_zero", "C27",
  "a component with priority 0 beside one without a priority",
  "a priority of 0 counts as the default",
  [("Registry.py", """            return getattr(obj, attrname, default)
""", """            return getattr(obj, attrname, None) or default
""")],
  REG + """
a, b = C(0), C(10)
Registry.register_component(a, {"x"})
Registry.register_component(b, {"x"})
assert Registry.get_component("x") is b
""")
B("registry_register_partial", "C27",
  "registering a component for a set of types, one of which it already has",
  "the refusal comes after some of the types have been added",
  [("Registry.py", """        for component_type in component_types:
            assert component not in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            component_set = self.__components_by_type.setdefault(component_type, set())
            component_set.add(component)
""", """        for component_type in sorted(component_types):
            component_set = self.__components_by_type.setdefault(component_type, set())
            assert component not in component_set
            component_set.add(component)
""")],
  REG + """
a = C()
Registry.register_component(a, {"y"})
try:
    Registry.register_component(a, {"x", "y"})
except AssertionError:
    pass
assert not Registry.get_components_by_type("x")
""")
B("registry_types_alias", "C27",
  "the set of types given at registration is changed afterwards",
  "the registry keeps the caller's set of types",
  [("Registry.py", """        self.__component_types.setdefault(component, set()).update(component_types)
""", """        if component in self.__component_types:
            self.__component_types[component].update(component_types)
        else:
            self.__component_types[component] = component_types
""")],
  REG + """
a = C()
t = {"x", "y"}
Registry.register_component(a, t)
t.discard("x")
Registry.unregister_component(a)
assert not Registry.get_components_by_type("x")
""")
B("registry_fire_order", "C27",
  "a listener of the unregistration looks up the components",
  "an unregistration is announced before it is in effect",
  [("Registry.py", """        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)
        self.__component_types""", """        self.component_unregistered_event.fire(component, component_types)
        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)
        self.__component_types"""), ("Registry.py", """            self.__component_types.pop(component)
        self.component_unregistered_event.fire(component, component_types)
""", """            self.__component_types.pop(component)
""")],
  REG + """
a = C()
Registry.register_component(a, {"x"})
log = []
l = Registry.listen_component_unregistered_event(lambda c, t: log.append(len(Registry.get_components_by_type("x"))))
Registry.unregister_component(a)
assert log == [0], log
""")

# ---------------------------------------------------------------- C33

B("recorder_close_item", "C33",
  "a contained item changes after the recorder was closed",
  "the recorders of contained items are not closed",
  [("Recorder.py", """        for key, item_recorder in self.__item_recorders.items():
            item_recorder.close()
        self.__item_recorders = None
""", "")],
  PERSIST + """
from nion.utils import Recorder
class L(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", 0, changed=lambda n, v: self.notify_property_changed(n))
class P(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_item("one", lambda lookup: L())
        self.set_item("one", L())
p, q = P(), P()
keep = []
import gc
gc.disable()
r = Recorder.Recorder(p)
r.close()
p.one.v = 5
r.apply(q)
assert q.one.v == 0, q.one.v
""")
B("recorder_read_only", "C33",
  "a property that is not recordable changes",
  "changes of properties that are not recordable are recorded if they are not read only",
  [("Persistence.py", """        return (property.recordable and not property.read_only) if (property is not None) else False
""", """        return (property.recordable or not property.read_only) if (property is not None) else False
""")],
  PERSIST + """
from nion.utils import Recorder
class P(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", 0, recordable=False, changed=lambda n, v: self.notify_property_changed(n))
p, a = P(), P()
r = Recorder.Recorder(p)
p.v = 3
r.apply(a)
assert a.v == 0, a.v
""")

# ---------------------------------------------------------------- C28

B("task_queue_all", "C28",
  "a task that queues another task",
  "performing also runs the tasks queued meanwhile",
  [("Process.py", """        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
""", """        while not self.empty():
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
""")],
  """
from nion.utils import Process
q = Process.TaskQueue()
log = []
q.put(lambda: q.put(lambda: log.append(1)))
q.perform_tasks()
assert log == [], log
""")
B("task_queue_blocking", "C28",
  "two threads perform the same queue with one task",
  "the second waits for a task for ever",
  [("Process.py", """                task = self.get(False)
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
""", """                task = self.get()
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
""")],
  INTERLEAVE + """
from nion.utils import Process
def make():
    q = Process.TaskQueue()
    log = []
    q.put(lambda: log.append(1))
    t = threading.Thread(target=q.perform_tasks, daemon=True)
    def check():
        assert log == [1], log
    return q.perform_tasks, q.perform_tasks, check
threading.Thread(target=lambda: (__import__("time").sleep(100), __import__("os")._exit(1)), daemon=True).start()
import faulthandler
faulthandler.dump_traceback_later(20, exit=True)
interleave(make)
""")
B("task_queue_clear_lost", "C28",
  "a task is queued by another thread while the queue is cleared, after the number of tasks was determined",
  "clearing removes everything at once, including tasks queued meanwhile, but only marks the earlier ones as done",
  [("Process.py", """        # perform any pending operations
        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                self.task_done()
            qsize -= 1
""", """        # perform any pending operations
        qsize = self.qsize()
        for _ in range(qsize):
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            self.task_done()
""")],
  INTERLEAVE + """
from nion.utils import Process
def make():
    q = Process.TaskQueue()
    q.put(lambda: None)
    errors = []
    def main():
        try:
            q.clear_tasks()
        except ValueError as e:
            errors.append(e)
    def check():
        assert not errors and q.unfinished_tasks == 0, (errors, q.unfinished_tasks)
    return main, q.perform_tasks, check
interleave(make)
""")
B("task_set_unlocked_clear", "C28",
  "a task is added by another thread between copying and clearing the set",
  "the task added meanwhile is lost",
  [("Process.py", """            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
""", """            task_dict = copy.copy(self.__task_dict)
        self.__task_dict.clear()
""")],
  INTERLEAVE + """
from nion.utils import Process
def make():
    s = Process.TaskSet()
    log = []
    s.add_task("a", lambda: log.append("a"))
    def other():
        s.add_task("b", lambda: log.append("b"))
    def check():
        s.perform_tasks()
        assert sorted(log) == ["a", "b"], log
    return s.perform_tasks, other, check
interleave(make)
""")
B("task_set_keep", "C28",
  "a task of a set that adds a task for its own key while it is performed",
  "the tasks are removed after they were run, so a task added meanwhile for the same key is lost",
  [("Process.py", """            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
""", """            task_dict = copy.copy(self.__task_dict)
        for key, task in task_dict.items():
            task()
            self.clear_task(key)
""")],
  """
from nion.utils import Process
s = Process.TaskSet()
log = []
s.add_task("a", lambda: s.add_task("a", lambda: log.append(1)))
s.perform_tasks()
s.perform_tasks()
assert log == [1], log
""")

# ---------------------------------------------------------------- C29

B("refcount_exit", "C29",
  "a with block left by an exception",
  "the reference is kept",
  [("ReferenceCounting.py", """                self.__item.remove_ref()
        return""", """                self.__item.remove_ref() if type is None else None
        return""")],
  """
from nion.utils import ReferenceCounting as R
c = R.ReferenceCounted()
c.add_ref()
try:
    with c.ref():
        raise KeyError
except KeyError:
    pass
assert c.ref_count == 1, c.ref_count
""")
B("refcount_again", "C29",
  "an object is referenced and released again after its last reference was released",
  "the object is told twice",
  [("ReferenceCounting.py", """            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
""", """            if self.__ref_count == 0 and check:
                self.__active = False
""")],
  """
from nion.utils import ReferenceCounting as R
log = []
class C(R.ReferenceCounted):
    def about_to_delete(self):
        log.append(1)
c = C()
c.add_ref(); c.remove_ref()
c.add_ref(); c.remove_ref()
assert log == [1], log
""")
B("refcount_unlocked_check", "C29",
  "two threads release the last two references at once",
  "whether the last reference is gone is looked at after the lock was released: both threads see zero",
  [("ReferenceCounting.py", """            self.__ref_count -= 1
            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
                self.about_to_delete()
""", """            self.__ref_count -= 1
        if self.__active and self.__ref_count == 0 and check:
            self.about_to_delete()
            self.__active = False
""")],
  INTERLEAVE + """
from nion.utils import ReferenceCounting as R
def make():
    log = []
    class C(R.ReferenceCounted):
        def about_to_delete(self):
            log.append(1)
    c = C()
    c.add_ref(); c.add_ref()
    def check():
        assert log == [1], log
    return c.remove_ref, c.remove_ref, check
interleave(make)
""")
B("refcount_unlocked_add", "C29",
  "a reference is added by one thread while another adds or removes one",
  "the count is read before the lock is taken, so the other change is lost",
  [("ReferenceCounting.py", """        with self.__ref_count_mutex:
            self.__ref_count += 1
        return self
""", """        ref_count = self.__ref_count + 1
        with self.__ref_count_mutex:
            self.__ref_count = ref_count
        return self
""")],
  INTERLEAVE + """
from nion.utils import ReferenceCounting as R
def make():
    c = R.ReferenceCounted()
    def check():
        assert c.ref_count == 2, c.ref_count
    return c.add_ref, c.add_ref, check
interleave(make)
""")

# ---------------------------------------------------------------- C30

B("pool_queue_closed", "C30",
  "a function is queued by another thread while the pool is closed, just after it was found open",
  "the function is queued behind the end marks of the threads, so closing waits for ever",
  [("ThreadPool.py", """        with self.__lock:
            if not self.__closed:
                def remove_task(task):
""", """        if not self.__closed:
            with self.__lock:
                def remove_task(task):
""")],
  INTERLEAVE + """
from nion.utils import ThreadPool
def make():
    p = ThreadPool.ThreadPool()
    p.start(1)
    def main():
        p.queue_fn(lambda: None)
    return main, p.close, lambda: None
import queue, time
done = queue.Queue.task_done
def slow_done(self):
    time.sleep(0.8)
    done(self)
queue.Queue.task_done = slow_done
interleave(make)
""")
B("pool_cancel_no_wait", "C30",
  "a pool is closed while a function runs",
  "closing does not wait for the running function; with another thread in the pool it returns early",
  [("ThreadPool.py", """        for _ in self.__threads:
            self.__queue.put(None)
        if len(self.__threads) > 0:
            self.__queue.join()
""", """        for _ in self.__threads:
            self.__queue.put(None)
"""), ("ThreadPool.py", """        with self.__lock:
            #logging.debug("Task cancel + %s", self)
            if self.__fn:
                self.__fn = None
                self.__finished_fn(self)
""", """        if self.__lock.acquire(timeout=0.2):
            #logging.debug("Task cancel + %s", self)
            if self.__fn:
                self.__fn = None
                self.__finished_fn(self)
            self.__lock.release()
""")],
  """
from nion.utils import ThreadPool
import threading, time
p = ThreadPool.ThreadPool()
p.start(2)
log = []
s = threading.Event()
def fn():
    s.set()
    time.sleep(1)
    log.append(1)
p.queue_fn(fn)
s.wait()
p.close()
assert log == [1]
""")
B("pool_exception_kind", "C30",
  "a function fails with an exception other than a value error",
  "the thread that ran it dies, so later functions are not run",
  [("ThreadPool.py", """                    self.__fn()
                except Exception as e:
                    import traceback
                    logging.debug("Task thread""", """                    self.__fn()
                except (ValueError, TypeError, ArithmeticError, LookupError, AttributeError, RuntimeError) as e:
                    import traceback
                    logging.debug("Task thread""")],
  """
from nion.utils import ThreadPool
import threading
p = ThreadPool.ThreadPool()
p.start(1)
s = threading.Event()
def fn():
    raise OSError("full")
threading.excepthook = lambda *a: None
p.queue_fn(fn)
p.queue_fn(s.set)
assert s.wait(3)
""")
B("pool_run_all_snapshot", "C30",
  "a function of a pool without threads that queues another",
  "running all runs only those queued before",
  [("ThreadPool.py", """        while not self.__queue.empty():
            task = self.__queue.get()
""", """        for _ in range(self.__queue.qsize()):
            task = self.__queue.get()
""")],
  """
from nion.utils import ThreadPool
p = ThreadPool.ThreadPool()
log = []
p.queue_fn(lambda: p.queue_fn(lambda: log.append(1)))
p.run_all()
assert log == [1], log
""")
B("pool_one_mark", "C30",
  "a pool with several threads is closed",
  "only as many threads end as there are functions left",
  [("ThreadPool.py", """        for _ in self.__threads:
            self.__queue.put(None)
""", """        self.__queue.put(None)
""")],
  """
from nion.utils import ThreadPool
import threading, time
n = threading.active_count()
p = ThreadPool.ThreadPool()
p.start(3)
p.close()
time.sleep(0.5)
assert threading.active_count() == n, threading.active_count() - n
""")
B("pool_finished_unlocked", "C30",
  "a pool is closed by one thread while a function that is just finishing removes itself from the list of tasks",
  "a finished function is removed before it is run, so closing does not wait for it",
  [("ThreadPool.py", """            if self.__fn:
                try:
                    self.__fn()
                except Exception as e:
""", """            if self.__fn:
                try:
                    fn, self.__fn = self.__fn, None
                    self.__finished_fn(self)
                    self.__finished_fn = lambda task: None
                    fn()
                except Exception as e:
"""), ("ThreadPool.py", """        if len(self.__threads) > 0:
            self.__queue.join()
""", "")],
  """
from nion.utils import ThreadPool
import threading, time
p = ThreadPool.ThreadPool()
p.start(1)
log = []
s = threading.Event()
def fn():
    s.set()
    time.sleep(0.5)
    log.append(1)
p.queue_fn(fn)
s.wait()
p.close()
assert log == [1]
""")

# ---------------------------------------------------------------- C31

B("dispatcher_clear_late", "C31",
  "a trigger while the function runs",
  "the trigger is forgotten when the function ends",
  [("ThreadPool.py", """            self.__triggered_event.set()
            self.__last_time = time.time()
""", """            self.__triggered_event.set()
            self.__last_time = time.time()
            if self.__minimum_interval:
                self.__thread_event.clear()
                if self.__thread_break:
                    break
""")],
  """
from nion.utils import ThreadPool
import threading, time
log = []
s = threading.Event()
def fn():
    log.append(1)
    s.set()
    time.sleep(0.3)
d = ThreadPool.ThreadDispatcher(fn, 0.01)
d.start()
d.trigger()
s.wait()
d.trigger()
time.sleep(1)
assert len(log) == 2, log
""")
B("dispatcher_interval_start", "C31",
  "a function that takes longer than the minimum interval is triggered while it runs",
  "the interval counts from the start of the previous run, so the next run follows at once",
  [("ThreadPool.py", """            if self.__thread_break:
                break
            try:
                self.__fn()
""", """            if self.__thread_break:
                break
            last_time = time.time()
            try:
                self.__fn()
"""), ("ThreadPool.py", """            self.__last_time = time.time()
""", """            self.__last_time = last_time
""")],
  """
from nion.utils import ThreadPool
import threading, time
log = []
s = threading.Event()
def fn():
    log.append(time.time())
    s.set()
    time.sleep(0.3)
    log.append(time.time())
d = ThreadPool.ThreadDispatcher(fn, 0.2)
d.start()
d.trigger()
s.wait()
d.trigger()
time.sleep(1.2)
d.close()
assert log[2] - log[1] > 0.15, log
""")
B("dispatcher_close_no_join", "C31",
  "a dispatcher is closed while the function runs",
  "closing waits for the thread only a short time, then the function is still running",
  [("ThreadPool.py", """        self.__thread.join()
        self.__triggered_event""", """        self.__thread.join(self.__minimum_interval * 2)
        self.__triggered_event""")],
  """
from nion.utils import ThreadPool
import threading, time
log = []
s = threading.Event()
def fn():
    s.set()
    time.sleep(0.5)
    log.append(1)
d = ThreadPool.ThreadDispatcher(fn)
d.start()
d.trigger()
s.wait()
d.close()
assert log == [1], log
""")
B("dispatcher_break_flag", "C31",
  "a dispatcher is closed while a triggered run waits for the minimum interval to pass",
  "the function is run once more although the dispatcher is being closed",
  [("ThreadPool.py", """            if thread_event_set:
                self.__thread_event.set()
            if self.__thread_break:
                break
""", """            if thread_event_set:
                self.__thread_event.set()
""")],
  """
from nion.utils import ThreadPool
import threading, time
log = []
d = ThreadPool.ThreadDispatcher(lambda: log.append(time.time()), 0.5)
d.start()
d.trigger(wait=True)
d.trigger()
time.sleep(0.1)
d.close()
assert len(log) < 2 or log[1] - log[0] >= 0.45, log
""")
B("dispatcher_interval_wait", "C31",
  "triggers keep arriving while a run waits for the minimum interval",
  "a trigger during the wait ends the wait early",
  [("ThreadPool.py", """                        thread_event_set = True  # set this so that we know to set it after this loop
                    self.__thread_event.clear()""", """                        thread_event_set = True  # set this so that we know to set it after this loop
                        break
                    self.__thread_event.clear()"""), ("ThreadPool.py", """            if thread_event_set:
                self.__thread_event.set()
""", "")],
  """
from nion.utils import ThreadPool
import threading, time
log = []
d = ThreadPool.ThreadDispatcher(lambda: log.append(time.time()), 0.3)
d.start()
d.trigger(wait=True)
d.trigger()
time.sleep(0.05)
d.trigger()
time.sleep(1)
d.close()
assert all(b - a > 0.25 for a, b in zip(log, log[1:])), log
""")

# ---------------------------------------------------------------- C32

B("promise_none", "C32",
  "a promise whose function returns None is accessed twice",
  "the function is called again",
  [("Promise.py", """                self.__value = self.__fn()
                self.__fn = None
""", """                self.__value = self.__fn()
                if self.__value is not None:
                    self.__fn = None
""")],
  """
from nion.utils import Promise
log = []
p = Promise.Promise(lambda: log.append(1))
p.value
p.value
assert log == [1], log
""")
B("promise_fail_once", "C32",
  "the function of a promise fails and the promise is accessed again",
  "the second access returns None instead of trying again",
  [("Promise.py", """                self.__value = self.__fn()
                self.__fn = None
""", """                fn, self.__fn = self.__fn, None
                self.__value = fn()
""")],
  """
from nion.utils import Promise
log = []
def fn():
    log.append(1)
    if len(log) == 1:
        raise ValueError
    return 5
p = Promise.Promise(fn)
try:
    p.value
except ValueError:
    pass
assert p.value == 5
""")
B("promise_double_check", "C32",
  "two threads access a promise at once",
  "whether the function was called is looked at before the lock is taken, so both call it",
  [("Promise.py", """        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        fn = self.__fn
        if callable(fn):
            with self.__lock:
                self.__value = fn()
                self.__fn = None
        return self.__value
""")],
  INTERLEAVE + """
from nion.utils import Promise
def make():
    log = []
    def fn():
        log.append(1)
        return 5
    p = Promise.Promise(fn)
    def use():
        p.value
    def check():
        assert log == [1], log
    return use, use, check
interleave(make)
""")
B("promise_partial", "C32",
  "another thread accesses the promise between marking it as evaluated and storing the value",
  "the other access returns None",
  [("Promise.py", """        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        if not self.__fn:
            return self.__value
        with self.__lock:
            if callable(self.__fn):
                value = self.__fn()
                self.__fn = None
                self.__value = value
            return self.__value
""")],
  INTERLEAVE + """
from nion.utils import Promise
def make():
    got = []
    p = Promise.Promise(lambda: 5)
    def check():
        assert got == [5, 5], got
    def use():
        got.append(p.value)
    return use, use, check
interleave(make)
""")

# ---- closing an event loop

B("close_loop_first_failure", "C35",
  "two tasks on the loop, one failing while the other still waits",
  "the first failure ends the waiting, so the other task is never finished",
  [("Process.py", "        gather_future = asyncio.gather(*tasks, return_exceptions=True)\n",
    "        gather_future = asyncio.gather(*tasks)\n"),
   ("Process.py", "    event_loop.run_until_complete(gather_future)\n",
    "    try:\n        event_loop.run_until_complete(gather_future)\n    except Exception:\n        pass  # failures belong to the tasks\n")],
  """
import asyncio
from nion.utils import Process
loop = asyncio.new_event_loop()
log = []
async def bad():
    await asyncio.sleep(0.01)
    raise ValueError()
async def good():
    await asyncio.sleep(0.05)
    log.append(1)
ts = [loop.create_task(bad()), loop.create_task(good())]
Process.close_event_loop(loop)
assert log == [1], log
""")
B("close_loop_timeout", "C35",
  "a task that takes longer than a second",
  "closing waits for at most a second, so a slow task is lost",
  [("Process.py", "        gather_future = asyncio.gather(*tasks, return_exceptions=True)\n",
    "        gather_future = asyncio.wait(tasks, timeout=1.0)\n")],
  """
import asyncio
from nion.utils import Process
loop = asyncio.new_event_loop()
log = []
async def good():
    await asyncio.sleep(1.3)
    log.append(1)
t = loop.create_task(good())
Process.close_event_loop(loop)
assert log == [1], log
""")
B("close_loop_executor", "C35",
  "a job given to the default executor without a task waiting for it",
  "the default executor is not waited for",
  [("Process.py", "        _default_executor.shutdown()\n", "        _default_executor.shutdown(wait=False)\n")],
  """
import asyncio, time
from nion.utils import Process
loop = asyncio.new_event_loop()
log = []
def job():
    time.sleep(0.3)
    log.append(1)
async def start():
    loop.run_in_executor(None, job)
loop.run_until_complete(start())
Process.close_event_loop(loop)
assert log == [1], log
""")

# ---- lists

B("flattened_live_lengths", "C10",
  "a listener that was there before the flattened list adds a child to a later container when one is added to an earlier one",
  "the place is computed from the containers' current lists, which include children the flattened list was not told of yet",
  [("ListModel.py", "            master_index = 0\n            for master_item_ in self.__master_items:\n                if master_item_ == master_item:\n                    break\n                master_index += len(self.__children.get(master_item_, list()))\n            master_index += before_index\n",
    "            master_index = 0\n            for master_item_ in self.__master_items:\n                if master_item_ == master_item:\n                    break\n                master_index += len(getattr(master_item_, self.__child_items_key))\n            master_index += before_index\n")],
  """
from nion.utils import ListModel
a, b = ListModel.ListModel("c"), ListModel.ListModel("c")
m = ListModel.ListModel("m", [a, b])
def echo(key, item, index):
    if not b.items:
        b.insert_item(0, "b" + item)
l = a.item_inserted_event.listen(echo)
f = ListModel.FlattenedListModel(container=m, master_items_key="m", child_items_key="c", items_key="i")
seen = []
k = f.item_inserted_event.listen(lambda key, item, index: seen.insert(index, item) if index <= len(seen) else seen.append(("bad", index)))
a.insert_item(0, "x")
assert f.items == ["x", "bx"] and seen == ["x", "bx"], (f.items, seen)
""")
B("flattened_same_child", "C10",
  "the same object twice among the children of a container, the second of them removed",
  "the first of the equal children is removed from the flattened list",
  [("ListModel.py", "            master_index += index\n            del self.__children[master_item][index]\n            del self.__items[master_index]\n",
    "            index = self.__children[master_item].index(item)\n            master_index += index\n            del self.__children[master_item][index]\n            del self.__items[master_index]\n")],
  """
from nion.utils import ListModel
a = ListModel.ListModel("c", ["x", "y", "x"])
m = ListModel.ListModel("m", [a])
f = ListModel.FlattenedListModel(container=m, master_items_key="m", child_items_key="c", items_key="i")
a.remove_item(2)
assert f.items == a.items == ["x", "y"], f.items
""")
B("filtered_update_equal_key", "C07",
  "the sort direction is reversed and two items have the same sort key as their neighbours, one of them changed",
  "an item moved between equal neighbours is compared with the wrong neighbour when the order is reversed",
  [("ListModel.py", "            if sort_operator(sort_key(items[mid]), item_sort_key):\n",
    "            if sort_key(items[mid]) < item_sort_key if len(items) > 2 else sort_operator(sort_key(items[mid]), item_sort_key):\n")],
  """
from nion.utils import ListModel
class I:
    def __init__(self, k): self.k = k
l = ListModel.ListModel("a", [I(1), I(3), I(5)])
f = ListModel.FilteredListModel(container=l, master_items_key="a", items_key="b")
f.sort_key = lambda x: x.k
f.sort_reverse = True
l.insert_item(0, I(4))
assert [x.k for x in f.items] == [5, 4, 3, 1], [x.k for x in f.items]
""")
B("filtered_listener_dict", "C07",
  "a source list of a filtered list whose item is removed and inserted again during a group of changes",
  "the listener of an item is kept when the item is removed in a group, so it is not followed after it came back",
  [("ListModel.py", "                self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, \"item_changed_event\") else None\n",
    "                if id(item) not in self.__item_changed_event_listeners:\n                    self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, \"item_changed_event\") else None\n"),
   ("ListModel.py", "                del self.__item_changed_event_listeners[id(item)]\n                self.__removed_master_item(index, item)\n",
    "                if not self.__change_level:\n                    del self.__item_changed_event_listeners[id(item)]\n                self.__removed_master_item(index, item)\n")],
  """
from nion.utils import ListModel, Event
class I:
    def __init__(self, v):
        self.v = v
        self.item_changed_event = Event.Event()
i, j = I(True), I(True)
l = ListModel.ListModel("a", [i, j])
f = ListModel.FilteredListModel(container=l, master_items_key="a", items_key="b")
f.filter = ListModel.PredicateFilter(lambda x: x.v)
with f.changes():
    l.remove_item(0)
    l.insert_item(1, i)
i.v = False
i.item_changed_event.fire()
assert f.items == [j], f.items
""")
B("mapped_selection_remove", "C09",
  "a selection made from a mapped list, an item removed while another item after it is selected, with two selections",
  "only the first selection is told of a removal",
  [("ListModel.py", "                for selection in self.__selections:\n                    selection.remove_index(index)\n\n\nclass FlattenedListModel",
    "                for selection in self.__selections[:1]:\n                    selection.remove_index(index)\n\n\nclass FlattenedListModel")],
  """
from nion.utils import ListModel
l = ListModel.ListModel("a", ["x", "y", "z"])
m = ListModel.MappedListModel(container=l, master_items_key="a", items_key="b", map_fn=lambda x: x + "m")
s, t = m.make_selection(), m.make_selection()
s.set(2); t.set(2)
l.remove_item(0)
assert s.indexes == {1} and t.indexes == {1}, (s.indexes, t.indexes)
""")

# ---- events

B("event_with_exception", "C01",
  "a with-block of a listener that is left by an exception",
  "the listener stays attached as long as its token is kept",
  [("Event.py", "    def __exit__(self, type, value, traceback):\n        self.close()\n",
    "    def __exit__(self, type, value, traceback):\n        if type is None:\n            self.close()\n")],
  """
from nion.utils import Event
e = Event.Event()
log = []
l = e.listen(lambda: log.append(1))
try:
    with l:
        raise ValueError()
except ValueError:
    pass
e.fire()
assert log == [], log
""")
B("event_single_snapshot", "C01",
  "the only listener of an event adds another one during a firing",
  "with a single listener the list itself is iterated, so a listener added meanwhile is called in the same firing",
  [("Event.py", "                with self.__weak_listeners_mutex:\n                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]\n                for listener in listeners:\n                    if listener:\n                        listener.call(*args, **keywords)\n            except",
    "                with self.__weak_listeners_mutex:\n                    if len(self.__weak_listeners) > 1:\n                        listeners = [weak_listener() for weak_listener in self.__weak_listeners]\n                    else:\n                        listeners = (weak_listener() for weak_listener in self.__weak_listeners)\n                for listener in listeners:\n                    if listener:\n                        listener.call(*args, **keywords)\n            except")],
  """
from nion.utils import Event
e = Event.Event()
log, keep = [], []
def add():
    log.append("a")
    if not keep:
        keep.append(e.listen(lambda: log.append("b")))
l = e.listen(add)
e.fire()
assert log == ["a"], log
e.fire()
assert log == ["a", "a", "b"], log
""")
B("event_listen_swap", "C03",
  "two threads add a listener at the same time",
  "the new list is built before the lock is taken, so one of the two listeners is lost",
  [("Event.py", "        with self.__weak_listeners_mutex:\n            self.__weak_listeners.append(weak_listener)\n",
    "        weak_listeners = self.__weak_listeners + [weak_listener]\n        with self.__weak_listeners_mutex:\n            self.__weak_listeners = weak_listeners\n")],
  INTERLEAVE + """
from nion.utils import Event
def make():
    e = Event.Event()
    log, keep = [], []
    def main(): keep.append(e.listen(lambda: log.append(1)))
    def other(): keep.append(e.listen(lambda: log.append(2)))
    def check():
        e.fire()
        assert sorted(log) == [1, 2], log
    return main, other, check
interleave(make)
""")
B("event_fire_any_generator", "C03",
  "a listener is dropped by another thread while a vote is collected",
  "votes iterate the list itself without the lock, so a listener that stays is skipped",
  [("Event.py", "                with self.__weak_listeners_mutex:\n                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]\n                for listener in listeners:\n                    if listener:\n                        if listener.call(*args, **keywords):\n",
    "                for weak_listener in self.__weak_listeners:\n                    listener = weak_listener()\n                    if listener:\n                        if listener.call(*args, **keywords):\n")],
  INTERLEAVE + """
from nion.utils import Event
def make():
    e = Event.Event()
    log = []
    keep = [e.listen(lambda: log.append(1)), e.listen(lambda: log.append(2)), e.listen(lambda: log.append(3))]
    def main(): e.fire_any()
    def other(): keep.pop(0)
    def check():
        assert log in ([1, 2, 3], [2, 3]), log
    return main, other, check
interleave(make)
""")
B("event_any_stop", "C02",
  "a vote-for-any firing with a listener that raises StopIteration",
  "a failure of a kind is taken as the end of the vote and not reported",
  [("Event.py", "                    if listener:\n                        if listener.call(*args, **keywords):\n                            return True\n                return False\n",
    "                    if listener:\n                        try:\n                            answer = listener.call(*args, **keywords)\n                        except StopIteration:\n                            return False\n                        if answer:\n                            return True\n                return False\n")],
  """
import contextlib, io
from nion.utils import Event
e = Event.Event()
def stop():
    raise StopIteration()
l = e.listen(stop)
m = e.listen(lambda: False)
err = io.StringIO()
with contextlib.redirect_stderr(err):
    e.fire_any()
assert "StopIteration" in err.getvalue(), err.getvalue()
""")

# ---- geometry and conversion

B("log_sub_base", "C34",
  "a range of a few decades where every second multiple is shown",
  "the multiples include the next decade, which then appears twice",
  [("Geometry.py", "            subs = arange(2, self.base, 2)\n", "            subs = arange(2, self.base + 1, 2)\n")],
  """
from nion.utils import Geometry
for ticks in range(3, 12):
    for high in range(1, 12):
        t = Geometry.LogTicker(0, high / 2, ticks=ticks)
        assert all(b > a + 1e-9 for a, b in zip(t.values, t.values[1:])), (ticks, high, t.values)
""")
B("log_narrow_round", "C34",
  "a narrow range below zero",
  "the lowest major tick is rounded towards zero and lies above the low limit",
  [("Geometry.py", "        self._minimum = math.floor(self._value_low / self._factor_b)\n",
    "        self._minimum = int(self._value_low / self._factor_b) if self._factor_b != 1.0 else math.floor(self._value_low)\n")],
  """
from nion.utils import Geometry
for i in range(-64, 64):
    low = i / 32
    t = Geometry.LogTicker(low, low + 3 / 32, ticks=5)
    assert t.values[0] <= low + 1e-9, (low, t.values)
""")
B("int_text_float", "C16",
  "an integer of more than 53 bits",
  "the text is read as a float first",
  [("Converter.py", "        return int(formatted_value)\n", "        return int(float(formatted_value)) if len(formatted_value) > 4 else int(formatted_value)\n")],
  """
from nion.utils import Converter
c = Converter.IntegerToStringConverter()
for v in (0, -5, 123456, 2**53 + 1, -2**60 - 1):
    assert c.convert_back(c.convert(v)) == v, v
""")
B("scaled_back_int", "C16",
  "a range that does not start at zero and an integer that does not divide evenly",
  "the value is rounded to the steps of a range of the given size starting at zero",
  [("Converter.py", "        return value_int * (self.value_max - self.value_min) / self.n + self.value_min\n",
    "        return (value_int + round(self.n * self.value_min / (self.value_max - self.value_min))) * (self.value_max - self.value_min) / self.n\n")],
  """
from nion.utils import Converter
c = Converter.FloatToScaledIntegerConverter(100, 1, 4)
for i in range(101):
    assert c.convert(c.convert_back(i)) == i, i
assert abs(c.convert_back(0) - 1) < 1e-9 and abs(c.convert_back(100) - 4) < 1e-9, (c.convert_back(0), c.convert_back(100))
""")
B("fuzzy_exponent_digits", "C17",
  "an exponent of three digits",
  "only two digits of the exponent are read",
  [("Converter.py", "(E(?P<exp>[-+]?\\d+))?", "(E(?P<exp>[-+]?\\d{1,2}))?")],
  """
from nion.utils import Converter
c = Converter.FloatToStringConverter()
assert c.convert_back("1e100") == 1e100, c.convert_back("1e100")
assert c.convert_back("2.5E-123") == 2.5e-123
""")
B("fuzzy_plus_space", "C17",
  "a number with a plus sign",
  "the sign is only understood if it is a minus",
  [("Converter.py", "(?P<sign>[-+])?              # an optional sign", "(?P<sign>-)?              # an optional sign")],
  """
from nion.utils import Converter
c = Converter.FloatToStringConverter()
assert c.convert_back("+3.5 nm") == 3.5, c.convert_back("+3.5 nm")
""")
B("int_rect_center_negative", "C12",
  "a rectangle of odd size at a negative position",
  "the centre is rounded towards zero",
  [("Geometry.py", "        return IntPoint(y=(self.top + self.bottom) // 2, x=(self.left + self.right) // 2)\n",
    "        return IntPoint(y=(self.top + self.bottom) / 2, x=(self.left + self.right) / 2)\n")],
  """
from nion.utils import Geometry
r = Geometry.IntRect(Geometry.IntPoint(y=-5, x=-4), Geometry.IntSize(height=2, width=3))
assert r.center == Geometry.IntPoint(y=-4, x=-3), r.center
""")

# ---- bindings, streams

B("binding_fallback_converted", "C18",
  "a binding with a converter and a fallback, the source value becoming None",
  "the fallback is converted",
  [("Binding.py", "            assert not self._closed\n            if property_name_ == self.__property_name:\n                value = getattr(source, property_name)\n                if value is not None:\n                    self.update_target(value)\n                else:\n                    self.update_target_direct(self.fallback)\n",
    "            assert not self._closed\n            if property_name_ == self.__property_name:\n                value = getattr(source, property_name)\n                self.update_target(value if value is not None else self.fallback)\n")],
  """
from nion.utils import Binding, Converter, Model
m = Model.PropertyModel(3)
b = Binding.PropertyBinding(m, "value", converter=Converter.FloatToPercentStringConverter(), fallback=0)
log = []
b.target_setter = log.append
m.value = None
assert log == [0], log
""")
B("binding_echo_guard", "C18",
  "a target that updates the source from its setter",
  "a source change made while the target is being updated is not passed on",
  [("Binding.py", "        if self.target_setter:\n            self.target_setter(converted_value)\n",
    "        target_setter = self.target_setter\n        if target_setter:\n            self.target_setter = None\n            try:\n                target_setter(converted_value)\n            finally:\n                self.target_setter = target_setter\n")],
  """
from nion.utils import Binding, Model
m = Model.PropertyModel(3)
b = Binding.PropertyBinding(m, "value")
log = []
def setter(v):
    log.append(v)
    if v == 4:
        b.update_source(5)
b.target_setter = setter
m.value = 4
assert log == [4, 5] and m.value == 5, log
""")
B("list_binding_key", "C19",
  "a source with two lists",
  "removals from the other list are relayed when the binding has shown items",
  [("Binding.py", "            if key_ == self.__key and callable(self.remover):\n                self.remover(index)\n",
    "            if (key_ == self.__key or index < len(self.items)) and callable(self.remover):\n                self.remover(index)\n")],
  """
from nion.utils import Binding, Observable
class S(Observable.Observable):
    def __init__(self):
        super().__init__()
        self.a, self.b = ["x"], ["y"]
s = S()
b = Binding.ListBinding(s, "a")
t = list(b.items)
b.inserter = lambda item, index: t.insert(index, item)
b.remover = lambda index: t.pop(index)
del s.b[0]
s.notify_remove_item("b", "y", 0)
assert t == ["x"], t
""")
B("map_stream_stale_initial", "C21",
  "a map stream whose function gives None for the first input and the input then changes to one with the same result as before",
  "the stream fires when it is created again with None",
  [("Stream.py", "        self.__listener = stream.value_stream.listen(update_value)\n        update_value(stream.value)\n",
    "        self.__listener = stream.value_stream.listen(update_value)\n        if stream.value is not None:\n            update_value(stream.value)\n")],
  """
from nion.utils import Stream
s = Stream.ValueStream(None)
m = Stream.MapStream(s, lambda x: 0 if x is None else x).add_ref()
assert m.value == 0, m.value
""")
B("model_equal_identity", "C20",
  "a comparison for which a value differs from itself (as not-a-number)",
  "the same object is never announced",
  [("Model.py", "            not_equal = not self.__cmp(value, self.__value)\n", "            not_equal = value is not self.__value and not self.__cmp(value, self.__value)\n")],
  """
from nion.utils import Model
class V: pass
v = V()
m = Model.PropertyModel(v, cmp=lambda a, b: False)
log = []
l = m.property_changed_event.listen(log.append)
m.value = v
assert log == ["value"], log
""")

# ---- structured models

B("record_equal_default", "C23",
  "a record built with a dictionary default and a value for one field only",
  "the default of the other fields is dropped when a value is given",
  [("StructuredModel.py", "        record_values = copy.copy(default_value or dict())\n        record_values.update(value or dict())\n",
    "        record_values = copy.copy(value or default_value or dict())\n")],
  """
from nion.utils import StructuredModel as S
inner = S.define_record("I", [S.define_field("x", S.INT, default=0), S.define_field("y", S.INT, default=0)])
outer = S.define_record("O", [S.define_field("i", inner, default={"x": 1, "y": 2})])
m = S.build_model(outer, value={"i": {"x": 5}})
assert m.i.x == 5 and m.i.y == 2, (m.i.x, m.i.y)
""")
B("array_replaced_listener", "C23",
  "an array in which the same record is inserted twice and one of them removed",
  "the removal stops all listeners of that record",
  [("StructuredModel.py", "        trampoline = self.__model_changed_listeners.pop(index)\n        if trampoline:\n            trampoline.close()\n        self.array_item_removed_event.fire(key, value, index)\n",
    "        trampoline = self.__model_changed_listeners.pop(index)\n        if trampoline:\n            trampoline.close()\n        if index < len(self.__model_changed_listeners) and index > 0 and self.__model_changed_listeners[index]:\n            self.__model_changed_listeners[index].close()\n        self.array_item_removed_event.fire(key, value, index)\n")],
  """
from nion.utils import StructuredModel as S
r = S.define_record("R", [S.define_field("x", S.INT, default=0)])
a = S.build_model(S.define_array(r), value=[{"x": 1}, {"x": 2}, {"x": 3}])
a.remove_item(1)
log = []
l = a.model_changed_event.listen(lambda: log.append(1))
a.items[1].x = 9
assert log == [1], log
""")

# ---- persistence

B("set_item_same_key", "C25",
  "an object with two items, one of them set",
  "the storage is told of the last defined item",
  [("Persistence.py", "            self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context\n",
    "            self.persistent_object_context.item_set(self, name if value else list(self.__items)[-1], value)  # this will also update item's persistent_object_context\n")],
  """
from nion.utils import Persistence
class C(Persistence.PersistentObject):
    pass
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_item("a", lambda lookup: C())
        self.define_item("b", lambda lookup: C())
class St:
    def __init__(self): self.log = []
    def set_item(self, parent, name, item):
        self.log.append((name, item is not None))
        if item: item.persistent_object_context = parent.persistent_object_context
ctx = Persistence.PersistentObjectContext()
p, st = P(), St()
ctx._set_persistent_storage_for_object(p, st)
p.persistent_object_context = ctx
p.set_item("a", C()); p.set_item("a", None)
assert st.log == [("a", True), ("a", False)], st.log
""")
B("read_empty_item", "C24",
  "an item whose dictionary is empty but for type and id is read into an object that has one",
  "relationship objects are read with the factory of the first relationship",
  [("Persistence.py", "                factory = self.__relationships[key].factory\n", "                factory = next(iter(self.__relationships.values())).factory\n")],
  """
from nion.utils import Persistence
class A(Persistence.PersistentObject):
    pass
class B(Persistence.PersistentObject):
    pass
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("a", lambda lookup: A())
        self.define_relationship("b", lambda lookup: B())
p = P()
p.append_item("b", B())
q = P()
q.begin_reading(); q.read_from_dict(p.write_to_dict()); q.finish_reading()
assert isinstance(q.b[0], B), q.b
""")
B("modified_item_removed", "C25",
  "a related object is removed from an object that is itself contained in another",
  "the removal is not counted by the ancestors",
  [("Persistence.py", "        relationship.values.remove(item)\n        self.__update_modified(datetime.datetime.utcnow())\n",
    "        relationship.values.remove(item)\n        self.__modified_count += 1\n        self.modified_state += 1\n        self.__modified = datetime.datetime.utcnow()\n")],
  """
from nion.utils import Persistence
class N(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("c", lambda lookup: N())
a, b, c = N(), N(), N()
a.append_item("c", b); b.append_item("c", c)
n, m = a.modified_count, b.modified_count
b.remove_item("c", c)
assert (a.modified_count, b.modified_count) == (n + 1, m + 1), (a.modified_count - n, b.modified_count - m)
""")
B("recorder_level_items", "C33",
  "an object contained as an item in a related object, changed while recording",
  "items of related objects are recorded as belonging to the related object's parent",
  [("Recorder.py", "        for key in object.item_names:\n            item = getattr(object, key)\n            if item:\n",
    "        for key in object.item_names:\n            item = getattr(object, key)\n            if item and logger is None:\n")],
  PERSIST + """
from nion.utils import Recorder, Event
class R(Node):
    def __init__(self):
        super().__init__()
        self.item_set_event = Event.Event()
        self.item_cleared_event = Event.Event()
        self._get_persistent_property("v").changed = lambda name, value: self.notify_property_changed(name)
    def new(self, lookup):
        return R()
def make():
    a, b, c = R(), R(), R()
    b.set_item("one", c)
    a.append_item("many", b)
    return a
a, z = make(), make()
r = Recorder.Recorder(a)
a.many[0].one.v = 7
r.close()
r.apply(z)
assert z.many[0].one.v == 7, z.many[0].one.v
""")
B("filter_same_object", "C07",
  "the filter of a filtered list is assigned again after what it accepts has changed",
  "assigning the same filter object does not refresh the list",
  [("ListModel.py", "        self.__filter = value\n        self.__items_sorted", "        if value is self.__filter:\n            return\n        self.__filter = value\n        self.__items_sorted")],
  """
from nion.utils import ListModel
class F(ListModel.Filter):
    def __init__(self):
        super().__init__(True)
        self.ok = {1}
    def matches(self, item):
        return item in self.ok
m = ListModel.ListModel("a", [1, 2, 3])
f = ListModel.FilteredListModel(container=m, master_items_key="a", items_key="b")
w = F()
f.filter = w
assert list(f.items) == [1], f.items
w.ok = {2, 3}
f.filter = w
assert list(f.items) == [2, 3], f.items
""")
B("mapped_to_none", "C09",
  "a map function that maps an item to None or another false value",
  "the item itself appears in the mapped list",
  [("ListModel.py", "                mapped_item = self.__map_fn(item)\n", "                mapped_item = self.__map_fn(item) or item\n")],
  """
from nion.utils import ListModel
m = ListModel.ListModel("a", [1])
f = ListModel.MappedListModel(container=m, master_items_key="a", items_key="b", map_fn=lambda x: x // 2)
m.insert_item(1, 1)
assert list(f.items) == [0, 0], f.items
""")
B("list_binding_none_removed", "C19",
  "None is one of the items of a bound list and is removed",
  "the removal is not passed on",
  [("Binding.py", "            if key_ == self.__key and callable(self.remover):\n                self.remover(index)",
    "            if key_ == self.__key and callable(self.remover) and item is not None:\n                self.remover(index)")],
  """
from nion.utils import ListModel, Binding
m = ListModel.ListModel("items", [1, None])
b = Binding.ListBinding(m, "items")
log = []
b.remover = log.append
m.remove_item(1)
assert log == [1], log
""")
B("related_list_alias", "C24",
  "a caller changes the list of related objects it was given",
  "the list handed out is the object's own",
  [("Persistence.py", "            return copy.copy(self.__relationships[name].values)", "            return self.__relationships[name].values")],
  PERSIST + """
a = Node()
a.append_item("many", Leaf())
l = a.many
l.append(Leaf())
assert len(a.many) == 1 and len(a.write_to_dict()["many"]) == 1
""")
B("external_data_empty", "C26",
  "a storage answers with external data that is empty",
  "empty data is returned as None",
  [("Persistence.py", "        return persistent_storage.read_external_data(item, name)", "        return persistent_storage.read_external_data(item, name) or None")],
  PERSIST + """
class S(Storage):
    def read_external_data(self, item, name):
        return []
class Root(Node):
    pass
c = Persistence.PersistentObjectContext()
a = Node()
s = S()
c._set_persistent_storage_for_object(a, s)
a.persistent_object_context = c
assert c.read_external_data(a, "x") == [], c.read_external_data(a, "x")
""")
B("record_none", "C33",
  "a property is set to None while recording",
  "the change is not recorded",
  [("Recorder.py", "        if self.__object._is_persistent_property_recordable(key):\n", "        if self.__object._is_persistent_property_recordable(key) and getattr(self.__object, key) is not None:\n")],
  """
from nion.utils import Recorder, Persistence, Observable
class A(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", changed=lambda name, value: self.notify_property_changed(name))
a, b = A(), A()
a.v = b.v = 3
r = Recorder.Recorder(a)
a.v = None
r.close()
r.apply(b)
assert b.v is None, b.v
""")
B("record_apply_long", "C33",
  "a long recording is applied to a second object",
  "a recording of more than eight changes is empty after it was applied once",
  [("Recorder.py", "        for logger_item in self.__logger:\n            logger_item(object)", "        for logger_item in self.__logger:\n            logger_item(object)\n        if len(self.__logger) > 8:\n            self.__logger.clear()")],
  """
from nion.utils import Recorder, Persistence, Observable
class A(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", 0, changed=lambda name, value: self.notify_property_changed(name))
a, b, c = A(), A(), A()
r = Recorder.Recorder(a)
for k in range(10):
    a.v = k + 1
r.close()
r.apply(b)
r.apply(c)
assert (b.v, c.v) == (10, 10), (b.v, c.v)
""")
B("size_index_end", "C12",
  "an integer size is indexed from its end",
  "index -2 gives the width",
  [("Geometry.py", "        return (self.__height, self.__width)[index]\n\n    def __iter__(self):\n        yield self.__height\n        yield self.__width\n\n    def __get_aspect_ratio(self):\n        \"\"\" Return the aspect ratio as a float. \"\"\"\n        return float(self.__width) / float(self.__height) if self.__height != 0 else 1.0\n    aspect_ratio = property(__get_aspect_ratio)\n\n\nclass IntRect",
    "        return self.__width if index else self.__height\n\n    def __iter__(self):\n        yield self.__height\n        yield self.__width\n\n    def __get_aspect_ratio(self):\n        \"\"\" Return the aspect ratio as a float. \"\"\"\n        return float(self.__width) / float(self.__height) if self.__height != 0 else 1.0\n    aspect_ratio = property(__get_aspect_ratio)\n\n\nclass IntRect")],
  """
from nion.utils import Geometry
s = Geometry.IntSize(height=3, width=4)
assert (s[0], s[1], s[-1], s[-2]) == (3, 4, 4, 3), s[-2]
""")
B("aspect_negative_height", "C12",
  "a rectangle whose height is negative",
  "the aspect ratio of such a rectangle is 1",
  [("Geometry.py", "        return float(self.width) / float(self.height) if self.height != 0 else 1.0\n    aspect_ratio = property(__get_aspect_ratio)\n\n    def contains_point(self, point):\n        \"\"\"\n            Return whether the point is contained in this rectangle.\n\n            Left/top sides are inclusive, right/bottom sides are not.\n        \"\"\"\n        point = IntPoint",
    "        return float(self.width) / float(self.height) if self.height > 0 else 1.0\n    aspect_ratio = property(__get_aspect_ratio)\n\n    def contains_point(self, point):\n        \"\"\"\n            Return whether the point is contained in this rectangle.\n\n            Left/top sides are inclusive, right/bottom sides are not.\n        \"\"\"\n        point = IntPoint")],
  """
from nion.utils import Geometry
r = Geometry.IntRect.from_tlhw(0, 0, -4, 8)
assert r.aspect_ratio == -2.0, r.aspect_ratio
""")
B("fit_small_size", "C14",
  "fitting to a size whose width is below one",
  "such a size is taken for a square",
  [("Geometry.py", "float(fit_size[1])/float(fit_size[0])", "float(fit_size[1])/float(fit_size[0]) if fit_size[1] >= 1 else 1.0")],
  """
from nion.utils import Geometry
r = Geometry.fit_to_size(((0, 0), (10, 10)), (0.25, 0.5))
assert abs(r.width / r.height - 2) < 1e-9, r
""")
B("blank_text_missing", "C17",
  "a text of spaces is converted back by a converter that passes None",
  "blank text is taken for missing",
  [("Converter.py", "(formatted_value is None or len(formatted_value) == 0)", "(formatted_value is None or len(formatted_value.strip()) == 0)")],
  """
from nion.utils import Converter
c = Converter.FloatToStringConverter(pass_none=True)
assert c.convert_back("") is None and c.convert_back(" ") == 0.0, c.convert_back(" ")
""")
B("task_set_shared", "C28",
  "the same task is set for two keys",
  "the task is run once only",
  [("Process.py", "            task_dict = copy.copy(self.__task_dict)\n            self.__task_dict.clear()\n        for task in task_dict.values():",
    "            task_dict = self.__task_dict\n            self.__task_dict = dict()\n        for task in set(task_dict.values()):")],
  """
from nion.utils import Process
t = Process.TaskSet()
log = []
def f():
    log.append(1)
t.add_task("a", f); t.add_task("b", f)
t.perform_tasks()
assert log == [1, 1], log
""")
B("pool_many_threads", "C30",
  "a pool with more than sixteen threads, or one started twice, is closed",
  "only sixteen threads are told to end",
  [("ThreadPool.py", "        for _ in self.__threads:\n            self.__queue.put(None)\n        if", "        for _ in self.__threads[:16]:\n            self.__queue.put(None)\n        if")],
  """
import threading, time
from nion.utils import ThreadPool
n = threading.active_count()
p = ThreadPool.ThreadPool()
p.start(20)
p.close()
for _ in range(100):
    if threading.active_count() == n:
        break
    time.sleep(0.02)
assert threading.active_count() == n, threading.active_count()
""")
B("log_subs", "C34",
  "a logarithmic axis whose minor ticks are the even multiples",
  "the base itself is among the minor ticks, so that a tick occurs twice",
  [("Geometry.py", "            subs = arange(2, self.base, 2)", "            subs = arange(2, self.base + 1, 2)")],
  """
from nion.utils import Geometry
for hi in range(1, 12):
    t = Geometry.LogTicker(0, hi)
    v = list(t.values)
    assert v == sorted(set(v)), (hi, v)
""")
B("flattened_partial_read", "C36",
  "one thread reads a flattened list while another adds a container with several children",
  "part of the new children are seen",
  [("ListModel.py", '''    @property
    def items(self) -> typing.Sequence:
        """ Return the items. """
        with self._update_mutex:
            return copy.copy(self.__items)

    def __getattr__(self, item):
        if item == self.__items_key:
            return self.items
        raise AttributeError()

    # thread safe.
    @property
    def container(self):
        return self.__container

    # thread safe.
    @container.setter
    def container(self, container):
        # remove old master items
        if self.__container:
            self.__item_inserted_event_listener.close()
            self.__item_inserted_event_listener = None
            self.__item_removed_event_listener.close()
            self.__item_removed_event_listener = None
            for item''', '''    @property
    def items(self) -> typing.Sequence:
        """ Return the items. """
        return list(self.__items)

    def __getattr__(self, item):
        if item == self.__items_key:
            return self.items
        raise AttributeError()

    # thread safe.
    @property
    def container(self):
        return self.__container

    # thread safe.
    @container.setter
    def container(self, container):
        # remove old master items
        if self.__container:
            self.__item_inserted_event_listener.close()
            self.__item_inserted_event_listener = None
            self.__item_removed_event_listener.close()
            self.__item_removed_event_listener = None
            for item''')],
  """
import threading, time
from nion.utils import ListModel
l = ListModel.ListModel("m")
f = ListModel.FlattenedListModel(container=l, master_items_key="m", child_items_key="c", items_key="x")
t = f.item_inserted_event.listen(lambda k, i, n: time.sleep(0.2))
th = threading.Thread(target=l.append_item, args=(ListModel.ListModel("c", [1, 2, 3]),))
th.start()
time.sleep(0.3)
seen = f.items
th.join()
assert seen in ([], [1, 2, 3]), seen
""")
B("filtered_old_items", "C36",
  "an item is inserted by one thread while another is about to update the list",
  "the items to be replaced are taken before the lock is held",
  [("ListModel.py", '''        with self._update_mutex:
            if self.__change_level > 0:
                return
            # first build the new items list, including items with master item.
            old_items = copy.copy(self.__items)
''', '''        old_items = copy.copy(self.__items)
        with self._update_mutex:
            if self.__change_level > 0:
                return
            # first build the new items list, including items with master item.
''')],
  """
import threading, time
from nion.utils import ListModel
class F(ListModel.Filter):
    def __init__(self, slow): super().__init__(True); self.slow = slow
    def matches(self, item):
        if self.slow: time.sleep(0.3)
        return True
class T: pass
a, b = T(), T()
l = ListModel.ListModel("m", [a])
f = ListModel.FilteredListModel(container=l, items_key="m")
copy_ = f.items
bad = []
def ins(k, i, n): copy_.insert(n, i)
def rem(k, i, n):
    if not (0 <= n < len(copy_)) or copy_[n] is not i: bad.append(n)
    else: del copy_[n]
t = [f.item_inserted_event.listen(ins), f.item_removed_event.listen(rem)]
with f.changes():
    f.filter = F(True)
th = threading.Thread(target=l.append_item, args=(b,))
th.start()
time.sleep(0.1)
errors = []
def g():
    try:
        f.filter = F(False)
    except Exception as e:
        errors.append(e)
g()
th.join()
assert not bad and not errors and copy_ == f.items and len(f.items) == 2, (bad, errors, f.items, copy_)
""")
B("filtered_changed_unlocked", "C36",
  "an item changes in one thread while another sets the filter",
  "whether the item is in the list is decided before the lock is held",
  [("ListModel.py", '''                def item_content_changed():
                    with self._update_mutex:
                        assert item in self.__master_items
                        self.__updated_master_item(item)
''', '''                def item_content_changed():
                    was_in_items = item in self.__items
                    with self._update_mutex:
                        assert item in self.__master_items
                        if was_in_items or self.filter.matches(item):
                            self.__updated_master_item(item)
''')],
  """
import threading, time
from nion.utils import Event, ListModel
class T:
    def __init__(self): self.v = 1; self.item_changed_event = Event.Event()
class F(ListModel.Filter):
    def __init__(self): super().__init__(True)
    def matches(self, item):
        r = item.v == 1
        time.sleep(0.3)
        return r
a = T()
l = ListModel.ListModel("m", [a])
f = ListModel.FilteredListModel(container=l, items_key="m")
f.filter = ListModel.Filter(False)
def g():
    f.filter = F()
th = threading.Thread(target=g)
th.start()
time.sleep(0.1)
a.v = 2
a.item_changed_event.fire()
th.join()
assert f.items == [], f.items
""")
B("attribute_own_only", "C19",
  "the bound attribute is a property of its object's class",
  "it is taken for missing when the target asks for its value",
  [("Binding.py", "hasattr(source_value, self.__attribute_name) else None", "self.__attribute_name in vars(source_value) else None")],
  """
from nion.utils import Binding, Model
class P:
    @property
    def a(self): return 3
m = Model.PropertyModel(P())
b = Binding.PropertyAttributeBinding(m, "value", "a")
assert b.get_target_value() == 3, b.get_target_value()
""")
B("combine_constants_last", "C21",
  "a constant stream is combined with one that changes, the constant being first",
  "constants come last in the combined value",
  [("Stream.py", "        self.__stream_list = [stream.add_ref() for stream in stream_list]", "        self.__stream_list = sorted((stream.add_ref() for stream in stream_list), key=lambda s: isinstance(s, ConstantStream))")],
  """
from nion.utils import Stream
c = Stream.CombineLatestStream([Stream.ConstantStream(1), Stream.ValueStream(2)])
assert c.value == (1, 2), c.value
""")
B("array_given_empty", "C23",
  "an array field with a default is given an empty list",
  "the default is used instead",
  [("StructuredModel.py", "return ArrayModel(schema, value if value is not None else default_value)", "return ArrayModel(schema, value or default_value)")],
  """
from nion.utils import StructuredModel as S
schema = S.define_record("R", [S.define_field("a", S.define_array(S.INT), default=[1, 2])])
assert list(S.build_model(schema, value={"a": []}).a) == []
""")
B("field_named_model", "C23",
  "a record has fields x and x_model",
  "the value of the latter is not accessible",
  [("StructuredModel.py", "        if name in self.__field_models:\n            return self.__field_models[name].field_value\n        if name.endswith(\"_model\") and name[:-6] in self.__field_models:\n            return self.__field_models[name[:-6]]", "        if name.endswith(\"_model\") and name[:-6] in self.__field_models:\n            return self.__field_models[name[:-6]]\n        if name in self.__field_models:\n            return self.__field_models[name].field_value")],
  """
from nion.utils import StructuredModel as S
m = S.build_model(S.define_record("R", [S.define_field("x", S.INT), S.define_field("x_model", S.INT)]), value={"x": 1, "x_model": 2})
assert m.x_model == 2, m.x_model
""")
B("concat_item_again", "C21",
  "the input announces its item again after the item itself changed",
  "no stream is made for the changed item",
  [("Stream.py","    def __stream_changed(self, item):\n        if self.__out_stream:\n","    def __stream_changed(self, item):\n        if item and self.__out_stream and item is self.__concat_item:\n            return\n        self.__concat_item = item\n        if self.__out_stream:\n"),("Stream.py","        self.__concat_fn = concat_fn\n","        self.__concat_fn = concat_fn\n        self.__concat_item = None\n")],
  """
from nion.utils import Stream
class I: v = 1
i = I()
s = Stream.ValueStream(i)
c = Stream.ConcatStream(s, lambda x: Stream.ValueStream(x.v))
i.v = 2
s.value_stream.fire(i)
assert c.value == 2, c.value
""")
B("flattened_many_children", "C10",
  "a container with more than 7 children precedes the one that changes",
  "the children of later containers are placed too early",
  [("ListModel.py", "                master_index += len(self.__children.get(master_item_, list()))\n            master_index += before_index", "                master_index += min(7, len(self.__children.get(master_item_, list())))\n            master_index += before_index")],
  """
from nion.utils import ListModel
class K(ListModel.ListModel):
    def __init__(self, items): super().__init__("kids", items)
top = ListModel.ListModel("src", [K(list(range(10))), K([100])])
f = ListModel.FlattenedListModel(container=top, master_items_key="src", child_items_key="kids", items_key="dst")
assert f.items == list(range(10)) + [100], f.items
""")
B("storage_far_ancestor", "C26",
  "an object more than four levels below the one with the storage",
  "its storage is not found",
  [("Persistence.py", "        persistent_object_parent = object.persistent_object_parent\n        if persistent_object_parent:\n            return self._get_persistent_storage_for_object(persistent_object_parent.parent)\n        return None", "        for _ in range(4):\n            persistent_object_parent = object.persistent_object_parent\n            if not persistent_object_parent:\n                break\n            object = persistent_object_parent.parent\n            weak_object = weakref.ref(object)\n            if weak_object in self.__persistent_storages:\n                return self.__persistent_storages[weak_object]\n        return None")],
  """
from nion.utils import Persistence
class T: persistent_object_parent = None
chain = [T() for i in range(8)]
for a, b in zip(chain, chain[1:]):
    b.persistent_object_parent = Persistence.PersistentObjectParent(a, item_name="it")
c = Persistence.PersistentObjectContext()
s = T()
c._set_persistent_storage_for_object(chain[0], s)
assert all(c._get_persistent_storage_for_object(o) is s for o in chain)
""")
B("task_queue_batch", "C28",
  "more than sixteen tasks are queued",
  "only sixteen are performed",
  [("Process.py", "        # perform any pending operations\n        qsize = self.qsize()\n        while not self.empty() and qsize > 0:\n            try:\n                task = self.get(False)\n            except queue.Empty:\n                pass\n            else:\n                task()", "        # perform any pending operations, but not too many at once\n        qsize = min(self.qsize(), 16)\n        while not self.empty() and qsize > 0:\n            try:\n                task = self.get(False)\n            except queue.Empty:\n                pass\n            else:\n                task()")],
  """
from nion.utils import Process
q, log = Process.TaskQueue(), []
for i in range(30):
    q.put(lambda i=i: log.append(i))
q.perform_tasks()
assert log == list(range(30)), log
""")
B("tuple_extend_limit", "C19",
  "a tuple is shorter than the bound element by more than six",
  "it is not extended far enough",
  [("Binding.py", "            while len(tuple_as_list) <= self.__tuple_index:\n                tuple_as_list.append(None)", "            for _ in range(6):\n                if len(tuple_as_list) <= self.__tuple_index:\n                    tuple_as_list.append(None)")],
  """
from nion.utils import Binding, Model
m = Model.PropertyModel((1,))
b = Binding.TuplePropertyBinding(m, "value", 9)
try:
    b.update_source(5)
except IndexError:
    pass
assert m.value == (1,) + (None,) * 8 + (5,), m.value
""")
B("context_many_related", "C25",
  "an object with more than eight related objects enters a context",
  "the others are not registered",
  [("Persistence.py", "            for item in self.__relationships[relationship_name].values:\n                item.persistent_object_context = persistent_object_context", "            for item in self.__relationships[relationship_name].values[:8]:\n                item.persistent_object_context = persistent_object_context")],
  """
from nion.utils import Persistence
class N(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("kids", lambda lookup: N())
n = N()
n.extend_items("kids", [N() for i in range(12)])
c = Persistence.PersistentObjectContext()
n.persistent_object_context = c
assert all(c.get_registered_object(k.uuid) is k for k in n.kids)
""")
