"""python3-vt tools/refactors.py [name|module ...] [--jobs N]

Behaviour-preserving edits (helpers extracted, statements reordered, loops rewritten, ...), each applied to a
scratch copy; the repository's tests must pass and every check of the module must stay quiet (exit 0) and decide."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"Event": "C01 C02 C03", "Selection": "C04 C05 C10", "ListModel": "C06 C09 C10 C11 C36 C07 C08",
         "Geometry": "C12 C13 C14 C15 C34", "Converter": "C16 C17", "Binding": "C18 C19", "Validator": "C18",
         "Observable": "C20", "Model": "C20 C21 C22", "Stream": "C21 C22", "StructuredModel": "C23",
         "Persistence": "C24 C25 C26 C33", "Registry": "C27", "Process": "C28 C35", "ReferenceCounting": "C29 C21",
         "ThreadPool": "C30 C31", "Promise": "C32", "Recorder": "C33"}
R = []


def E(name, file, *subs):
    R.append((name, file, subs))


E("ev_helper", "Event.py",
  ("""    def fire(self, *args, **keywords):
        \"\"\"Calls listeners (in order added) unconditionally.\"\"\"
        listener = None
        if self.__weak_listeners:
            try:
                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
""", """    def __snapshot(self):
        with self.__weak_listeners_mutex:
            return [listener for listener in (w() for w in self.__weak_listeners) if listener is not None]

    def fire(self, *args, **keywords):
        \"\"\"Calls listeners (in order added) unconditionally.\"\"\"
        listener = None
        if len(self.__weak_listeners) > 0:
            try:
                for listener in self.__snapshot():
                    listener.call(*args, **keywords)
"""),
  ("""                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
""", """                for listener in self.__snapshot():
                    if listener.call(*args, **keywords):
                        return True
                return False
"""))
E("ev_void", "Event.py",
  ("""class EventListener:
""", """def _void(*args, **kwargs):
    pass


class EventListener:
"""),
  ("""        if callable(listener_fn):
            self.call = self.__listener_fn
        else:
            def void(*args, **kwargs):
                pass
            self.call = void
""", """        self.call = listener_fn if callable(listener_fn) else _void
"""),
  ("""        self.__listener_fn = None
        def void(*args, **kwargs):
            pass
        self.call = void
""", """        self.__listener_fn = None
        self.call = _void
"""))
E("ev_any_all", "Event.py",
  ("""                for listener in listeners:
                    if listener:
                        call = listener.call  # before checking closed; another thread may be closing the listener
                        if not listener.closed and not call(*args, **keywords):
                            return False
                return True
""", """                result = True
                for listener in listeners:
                    if not listener:
                        continue
                    call = listener.call
                    if listener.closed:
                        continue
                    if not call(*args, **keywords):
                        result = False
                        break
                return result
"""),
  ("""                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
""", """                i = 0
                while i < len(listeners):
                    listener = listeners[i]
                    i += 1
                    if listener and listener.call(*args, **keywords):
                        return True
                return False
"""))
E("ev_early_return", "Event.py",
  ("""        listener = None
        if self.__weak_listeners:
            try:
                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
            except Exception as e:
                self.__print_event_exception(listener)
""", """        listener = None
        if not self.__weak_listeners:
            return
        with self.__weak_listeners_mutex:
            listeners = list(map(lambda w: w(), self.__weak_listeners))
        try:
            for listener in listeners:
                if listener is None:
                    continue
                listener.call(*args, **keywords)
        except Exception:
            self.__print_event_exception(listener)
"""))
E("ev_owner_pop", "Event.py",
  ("""                listener = self.__listeners[id(weak_owner)][0]
                listener.close()
                del self.__listeners[id(weak_owner)]
""", """                owned_listener, _ = self.__listeners.pop(id(weak_owner))
                owned_listener.close()
"""))
E("ev_dictorder", "Event.py",
  ("""        self.__weak_listeners = list()
""", """        self.__weak_listeners = dict()
"""),
  ("""                self.__weak_listeners.remove(weak_listener)
""", """                del self.__weak_listeners[id(weak_listener)]
"""),
  ("""            self.__weak_listeners.append(weak_listener)
""", """            self.__weak_listeners[id(weak_listener)] = weak_listener
"""),
  ("""        return [w() for w in self.__weak_listeners]
""", """        return [w() for w in self.__weak_listeners.values()]
"""),
  ("""                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
""", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners.values()]
"""),
  ("""                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
""", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners.values()]
"""),
  ("""                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
""", """                    listeners = [weak_listener() for weak_listener in self.__weak_listeners.values()]
"""))
# ---- Selection
E("sel_notify", "Selection.py",
  ("""    def __update_anchor_index(self) -> None:
""", """    def __notify_if_changed(self, old_index) -> None:
        if self.__indexes == old_index:
            return
        self.__changed_event.fire()

    def __update_anchor_index(self) -> None:
"""),
  ("""            self.__indexes.add(index)
            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
""", """            self.__indexes.add(index)
            if not old_index:
                self.__anchor_index = index
            self.__notify_if_changed(old_index)
"""),
  ("""            self.__indexes = set()
            self.__indexes.add(index)
            self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
""", """            self.__anchor_index = index
            self.__indexes = {index}
            self.__notify_if_changed(old_index)
"""))
E("sel_comprehension", "Selection.py",
  ("""        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
        if self.__anchor_index is not None:
            if new_index <= self.__anchor_index:
                self.__anchor_index += 1
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
""", """        self.__indexes = {index + 1 if index >= new_index else index for index in self.__indexes}
        if self.__anchor_index is not None and self.__anchor_index >= new_index:
            self.__anchor_index = self.__anchor_index + 1
"""),
  ("""        new_indexes = set()
        for index in self.__indexes:
            if index != remove_index:
                if index > remove_index:
                    new_indexes.add(index - 1)
                else:
                    new_indexes.add(index)
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
""", """        self.__indexes = {index - (1 if index > remove_index else 0) for index in self.__indexes if index != remove_index}
"""))
E("sel_extend", "Selection.py",
  ("""            if self.__anchor_index is not None:
                if index > self.__anchor_index:
                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
                elif index < self.__anchor_index:
                    for new_index in range(index, self.__anchor_index + 1):
                        self.__indexes.add(new_index)
            else:
""", """            if self.__anchor_index is not None:
                if index != self.__anchor_index:
                    low, high = sorted((index, self.__anchor_index))
                    self.__indexes.update(range(low, high + 1))
            else:
"""),
  ("""        if len(self.__indexes) == 1:
            for index in self.__indexes:
                return index
        return None
""", """        return next(iter(self.__indexes)) if len(self.__indexes) == 1 else None
"""),
  ("""        return not isinstance(other, IndexedSelection) or self.indexes != other.indexes or self.anchor_index != other.anchor_index
""", """        return not self == other
"""))
E("sel_ordered", "Selection.py",
  ("""        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes
""", """        anchor_index = self.__anchor_index
        if anchor_index is None or anchor_index not in self.__indexes:
            return sorted(self.__indexes)
        return [anchor_index] + sorted(self.__indexes - {anchor_index})
"""),
  ("""            self.__indexes = set()
            self.__indexes.update(indexes)
            self.__anchor_index = list(indexes)[0] if len(indexes) > 0 else None
""", """            self.__indexes = set(indexes)
            self.__anchor_index = next(iter(indexes), None)
"""),
  ("""        if index in self.__indexes:
            self.remove(index)
        else:
            self.add(index)
""", """        (self.remove if self.contains(index) else self.add)(index)
"""))
# ---- ListModel
E("list_basic", "ListModel.py",
  ("""        value = self.__items[index]
        del self.__items[index]
        self.notify_remove_item(self.__key if self.__key else "items", value, index)
""", """        value = self.__items.pop(index)
        self.notify_remove_item(self.__items_key, value, index)
"""),
  ("""        self.notify_insert_item(self.__key if self.__key else "items", value, index)
""", """        self.notify_insert_item(self.__items_key, value, index)

    @property
    def __items_key(self) -> str:
        return self.__key or "items"
"""),
  ("""        while self.__items:
            self.remove_item(len(self.__items) - 1)
""", """        for index in reversed(range(len(self.__items))):
            self.remove_item(index)
"""))
E("filter_loops", "ListModel.py",
  ("""        return all(map(operator.methodcaller('matches', d), self.__filters))
""", """        for filter in self.__filters:
            if not filter.matches(d):
                return False
        return True
"""),
  ("""        return any(map(operator.methodcaller('matches', d), self.__filters))
""", """        return any(filter.matches(d) for filter in self.__filters)
"""),
  ("""        d_value = str(getattr(d, self.__key)).lower()
        return d_value.find(self.__lower_text) >= 0
""", """        return self.__lower_text in str(getattr(d, self.__key)).lower()
"""),
  ("""        return d_value.startswith(self.__value)
""", """        return d_value[:len(self.__value)] == self.__value
"""),
  ("""        if self.__year and d_value.year != self.__year:
            return False
        if self.__month and d_value.month != self.__month:
            return False
        if self.__day and d_value.day != self.__day:
            return False
        return True
""", """        wanted = ((self.__year, d_value.year), (self.__month, d_value.month), (self.__day, d_value.day))
        return all(not part or part == actual for part, actual in wanted)
"""))
E("filtered_build", "ListModel.py",
  ("""        items = list()
        for item in master_items:
            # apply filter
            if self.filter.matches(item):
                # add item and its dependent items
                items.append(item)
        return items
""", """        matches = self.filter.matches
        return [item for item in master_items if matches(item)]
"""),
  ("""        if self.sort_key:
            master_items.sort(key=self.sort_key, reverse=self.sort_reverse)
""", """        if self.__sort_key:
            master_items = sorted(master_items, key=self.__sort_key, reverse=self.__sort_reverse)
"""))
E("filtered_index", "ListModel.py",
  ("""        index = 0
        for item_ in master_items:
            if item_ == item:
                break
            if filter.matches(item_):
                index += 1
        return index
""", """        index = 0
        if item in master_items:
            master_items = master_items[0:master_items.index(item)]
        for item_ in master_items:
            index += 1 if filter.matches(item_) else 0
        return index
"""),
  ("""        item_sort_key = sort_key(item)
        low = 0
        high = len(items)
        while low < high:
            mid = (low + high) // 2
            if sort_operator(sort_key(items[mid]), item_sort_key):
                low = mid + 1
            else:
                high = mid
        return low
""", """        item_sort_key = sort_key(item)
        for index, item_ in enumerate(items):
            if not sort_operator(sort_key(item_), item_sort_key):
                return index
        return len(items)
"""))
E("filtered_notify", "ListModel.py",
  ("""        self.__items.insert(before_index, item)
        self.begin_changes_event.fire(self.__items_key)
        self.notify_insert_item(self.__items_key, item, before_index)
        self.end_changes_event.fire(self.__items_key)

    def __remove_item(self, item):
        item_index = self.__items.index(item)
        del self.__items[item_index]
        self.begin_changes_event.fire(self.__items_key)
        self.notify_remove_item(self.__items_key, item, item_index)
        self.end_changes_event.fire(self.__items_key)
""", """        self.__items.insert(before_index, item)
        self.__notify(self.notify_insert_item, item, before_index)

    def __notify(self, notify_fn, item, index):
        self.begin_changes_event.fire(self.__items_key)
        notify_fn(self.__items_key, item, index)
        self.end_changes_event.fire(self.__items_key)

    def __remove_item(self, item):
        item_index = self.__items.index(item)
        self.__items.pop(item_index)
        self.__notify(self.notify_remove_item, item, item_index)
"""))
E("filtered_updated", "ListModel.py",
  ("""            items = self.__items
            if self.filter.matches(item):
                # item will be in the list
                sort_key = self.sort_key
                if sort_key is not None:
""", """            items = self.__items
            is_match = self.filter.matches(item)
            if not is_match:
                if item in items:
                    self.__removed_master_item(items.index(item), item)
                return
            if is_match:
                # item will be in the list
                sort_key = self.sort_key
                if sort_key is not None:
"""),
  ("""                        self.__inserted_master_item(0, item)
            else:
                # item will not be in list
                if item in items:
                    # item already in list
                    index = items.index(item)
                    self.__removed_master_item(index, item)
""", """                        self.__inserted_master_item(0, item)
"""))
E("filtered_setters", "ListModel.py",
  ("""        with self._update_mutex:
            self.__sort_key = value
            self.__items_sorted = False
            self.reset_list_event.fire(self.__items_key)
        self.__update_items()
""", """        with self._update_mutex:
            self.__sort_key = value
            self.__reset_items()
        self.__update_items()

    def __reset_items(self) -> None:
        self.__items_sorted = False
        self.reset_list_event.fire(self.__items_key)
"""),
  ("""            self.__sort_reverse = value
            self.__items_sorted = False
            self.reset_list_event.fire(self.__items_key)
""", """            self.__sort_reverse = value
            self.__reset_items()
"""),
  ("""        self.__filter = value
        self.__items_sorted = False
        self.reset_list_event.fire(self.__items_key)
        self.__update_items()
""", """        with self._update_mutex:
            self.__filter = value
            self.__reset_items()
            self.__update_items()
"""))
E("filtered_update_full", "ListModel.py",
  ("""            if self.__items_sorted and is_kept_sorted:
                insert_items_set = new_items_set - old_items_set
                remove_items_set = old_items_set - new_items_set
                items_removed = 0
                # remove old items by iterating through all and checking whether in remove items set
                for index, item in enumerate(old_items):
                    if item in remove_items_set:
                        item_index = index - items_removed
                        del self.__items[item_index]
                        self.notify_remove_item(self.__items_key, item, item_index)
                        items_removed += 1
                # insert using sorting
                for item in insert_items_set:
                    self.__insert_item(item, sort_key, sort_reverse)
""", """            if self.__items_sorted and is_kept_sorted:
                # remove old items, last first
                for item_index in range(len(self.__items) - 1, -1, -1):
                    item = self.__items[item_index]
                    if item not in new_items_set:
                        del self.__items[item_index]
                        self.notify_remove_item(self.__items_key, item, item_index)
                # insert using sorting
                for item in items:
                    if item not in old_items_set:
                        self.__insert_item(item, sort_key, sort_reverse)
"""))
E("filtered_always_replace", "ListModel.py",
  ("""            if self.__items_sorted and is_kept_sorted:
""", """            if self.__items_sorted and is_kept_sorted and len(items) > 0:
"""))
E("filtered_tracker", "ListModel.py",
  ("""import copy
import functools
""", """import contextlib
import copy
import functools
"""),
  ("""        class ChangeTracker:
            def __init__(self, list_model: FilteredListModel):
                self.list_model = list_model

            def __enter__(self):
                self.list_model.begin_change()
                return self

            def __exit__(self, type_, value, traceback):
                self.list_model.end_change()

        return ChangeTracker(self)
""", """        @contextlib.contextmanager
        def change_tracker():
            self.begin_change()
            try:
                yield self
            finally:
                self.end_change()

        return change_tracker()
"""))
E("mapped", "ListModel.py",
  ("""                mapped_item = self.__items[index]
                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item)
                del self.__items[index]
                self.notify_remove_item(self.__items_key, mapped_item, index)
                for selection in self.__selections:
                    selection.remove_index(index)
""", """                unmap_fn = self.__unmap_fn
                mapped_item = self.__items[index]
                if callable(unmap_fn):
                    unmap_fn(mapped_item)
                self.__items[index:index + 1] = []
                self.notify_remove_item(self.__items_key, mapped_item, index)
                for i in range(len(self.__selections)):
                    self.__selections[i].remove_index(index)
"""))
E("flattened", "ListModel.py",
  ("""            master_index = 0
            for master_item_ in self.__master_items:
                if master_item_ == master_item:
                    break
                master_index += len(self.__children.get(master_item_, list()))
            master_index += before_index
""", """            master_index = self.__flattened_index(master_item) + before_index
"""),
  ("""            master_index = 0
            for master_item_ in self.__master_items:
                if master_item_ == master_item:
                    break
                master_index += len(self.__children.get(master_item_, list()))
            master_index += index
""", """            master_index = self.__flattened_index(master_item) + index
"""),
  ("""    def __child_item_inserted(self, master_item, key, item, before_index):
""", """    def __flattened_index(self, master_item) -> int:
        previous_items = self.__master_items[:self.__master_items.index(master_item)]
        return sum(len(self.__children.get(previous_item, ())) for previous_item in previous_items)

    def __child_item_inserted(self, master_item, key, item, before_index):
"""))
# ---- Geometry
E("geo_pretty", "Geometry.py",
  ("""    if rounding:
        if val_norm < 1.5:
            val_norm = 1.0
        elif val_norm < 3.0:
            val_norm = 2.0
        elif val_norm < 7.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
    else:
        if val_norm <= 1.0:
            val_norm = 1.0
        elif val_norm <= 2.0:
            val_norm = 2.0
        elif val_norm <= 5.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
""", """    if rounding:
        steps = ((1.5, 1.0), (3.0, 2.0), (7.0, 5.0))
        val_norm = next((nice for limit, nice in steps if val_norm < limit), 10.0)
    else:
        val_norm = next((nice for nice in (1.0, 2.0, 5.0) if val_norm <= nice), 10.0)
"""))
E("geo_ticks", "Geometry.py",
  ("""    # make the tick marks
    tick_values = []

    def arange(start, stop, step):
        return [start + x * step for x in range(math.ceil((stop - start) / step))]

    for x in arange(graph_minimum, graph_maximum + 0.5 * division, division):
        tick_values.append(x)
""", """    # make the tick marks
    tick_count = math.ceil((graph_maximum + 0.5 * division - graph_minimum) / division)
    tick_values = [graph_minimum + index * division for index in range(tick_count)]
"""),
  ("""    value_low, value_high = min(value_low, value_high), max(value_low, value_high)

    # check for small range
    if value_high == value_low:
""", """    if value_low > value_high:
        value_low, value_high = value_high, value_low

    # check for small range
    if value_high == value_low:
"""))
E("geo_label", "Geometry.py",
  ("""            return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
        else:
            return (u"{0:0." + u"{0:d}".format(precision) + "f}").format(value)
""", """            return f"{value:0.{precision}e}"
        return "%.*f" % (precision, value)
"""))
E("geo_fit", "Geometry.py",
  ("""    if rect.aspect_ratio > aspect_ratio:
        # height will fill entire frame
        new_size = FloatSize(height=rect.height, width=rect.height * aspect_ratio)
        new_origin = FloatPoint(y=rect.top, x=rect.left + 0.5 * (rect.width - new_size.width))
        return FloatRect(origin=new_origin, size=new_size)
    else:
        new_size = FloatSize(height=rect.width / aspect_ratio, width=rect.width)
        new_origin = FloatPoint(y=rect.top + 0.5*(rect.height - new_size.height), x=rect.left)
        return FloatRect(origin=new_origin, size=new_size)
""", """    top, left = rect.top, rect.left
    if rect.aspect_ratio > aspect_ratio:
        # height will fill entire frame
        height, width = rect.height, rect.height * aspect_ratio
        left += (rect.width - width) / 2
    else:
        height, width = rect.width / aspect_ratio, rect.width
        top += (rect.height - height) / 2
    return FloatRect(origin=(top, left), size=(height, width))
"""))
E("geo_distance", "Geometry.py",
  ("""    return math.sqrt(pow(pt2[0] - pt1[0], 2) + pow(pt2[1] - pt1[1], 2))
""", """    dy = pt2[0] - pt1[0]
    dx = pt2[1] - pt1[1]
    return math.sqrt(dy * dy + dx * dx)
"""),
  ("""    return (0.5 * (pt1[0] + pt2[0]), 0.5 * (pt1[1] + pt2[1]))
""", """    return tuple(0.5 * (a + b) for a, b in ((pt1[0], pt2[0]), (pt1[1], pt2[1])))
"""))
# ---- Stream
E("stream_map", "Stream.py",
  ("""        # listen for display changes
        def update_value(new_value):
            new_value = value_fn(new_value)
            if new_value != self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener = stream.value_stream.listen(update_value)
        update_value(stream.value)
""", """        self.__value_fn = value_fn
        # listen for display changes
        self.__listener = stream.value_stream.listen(self.__update_value)
        self.__update_value(stream.value)

    def __update_value(self, new_input):
        mapped_value = self.__value_fn(new_input)
        if not (mapped_value != self.__value):
            return
        self.__value = mapped_value
        self.value_stream.fire(mapped_value)
"""))
E("stream_combine", "Stream.py",
  ("""        self.__listeners = dict()  # index
        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index] = stream.value_stream.listen(functools.partial(self.__handle_stream_value, index))
            self.__values[index] = stream.value
        self.__values_changed()
""", """        def make_handler(i):
            return lambda value: self.__handle_stream_value(i, value)
        self.__values = [stream.value for stream in self.__stream_list]
        self.__listeners = [stream.value_stream.listen(make_handler(i)) for i, stream in enumerate(self.__stream_list)]
        self.__values_changed()
"""),
  ("""        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index].close()
            self.__values[index] = None
            stream.remove_ref()
        self.__stream_list = None
        self.__values = None
""", """        for listener in self.__listeners:
            listener.close()
        self.__listeners = list()
        for stream in self.__stream_list:
            stream.remove_ref()
        self.__stream_list = None
        self.__values = None
"""))
E("stream_concat", "Stream.py",
  ("""        if self.__out_stream:
            self.__out_stream_listener.close()
            self.__out_stream_listener = None
            self.__out_stream.remove_ref()
            self.__out_stream = None
        if item:
            def out_stream_changed(new_value):
                self.__value = new_value
                self.value_stream.fire(new_value)
            self.__out_stream = self.__concat_fn(item)
            self.__out_stream.add_ref()
            self.__out_stream_listener = self.__out_stream.value_stream.listen(out_stream_changed)
            out_stream_changed(self.__out_stream.value)
        else:
            self.__value = None
            self.value_stream.fire(None)
""", """        self.__release_out_stream()
        if not item:
            self.__set_value(None)
            return
        out_stream = self.__concat_fn(item).add_ref()
        self.__out_stream = out_stream
        self.__out_stream_listener = out_stream.value_stream.listen(self.__set_value)
        self.__set_value(out_stream.value)

    def __set_value(self, new_value):
        self.__value = new_value
        self.value_stream.fire(new_value)

    def __release_out_stream(self):
        if self.__out_stream:
            self.__out_stream_listener.close()
            self.__out_stream_listener = None
            self.__out_stream.remove_ref()
            self.__out_stream = None
"""))
E("stream_debounce_sched", "Stream.py",
  ("""        try:
            await asyncio.sleep(self.__period)
        finally:
            # clear the task first so that a value arriving while firing starts a new delay.
            self.__debounce_task = None
        self.value_stream.fire(self.__value)
""", """        try:
            await asyncio.sleep(delay=self.__period)
        finally:
            # clear the task first so that a value arriving while firing starts a new delay.
            self.__debounce_task = None
        value = self.__value
        self.value_stream.fire(value)
"""),
  ("""        if not self.__debounce_task:  # only trigger new task if necessary
            self.__debounce_task = self.__loop.create_task(self.debounce_delay())
""", """        if self.__debounce_task is not None:
            return
        coroutine = self.debounce_delay()
        self.__debounce_task = self.__loop.create_task(coroutine)
"""))
E("stream_sample", "Stream.py",
  ("""        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            self.__value_dirty = False
            pending_value = self.__pending_value
        if value_dirty:
            self.__value = pending_value
            self.value_stream.fire(pending_value)
""", """        with self.__value_dirty_lock:
            value_dirty, self.__value_dirty = self.__value_dirty, False
            pending_value = self.__pending_value
        if not value_dirty:
            return
        self.__value = pending_value
        self.value_stream.fire(pending_value)
"""),
  ("""        self.__value_dirty_lock = threading.RLock()
""", """        self.__value_dirty_lock = threading.Lock()
"""))
E("stream_prop", "Stream.py",
  ("""            if self.__property_changed_listener:
                self.__property_changed_listener.close()
                self.__property_changed_listener = None
            self.__source_object = source_object
            if self.__source_object:
                self.__property_changed_listener = self.__source_object.property_changed_event.listen(self.__property_changed)
                self.__property_changed(property_name)
        self""", """            self.__stop_listening()
            self.__source_object = source_object
            if source_object:
                self.__property_changed_listener = source_object.property_changed_event.listen(self.__property_changed)
                self.__property_changed(self.__property_name)
        self"""),
  ("""    def close(self):
        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
""", """    def __stop_listening(self):
        listener, self.__property_changed_listener = self.__property_changed_listener, None
        if listener:
            listener.close()

    def close(self):
        self.__stop_listening()
        self.__source_stream_listener.close()
"""))
# ---- Binding
E("bind_tuple", "Binding.py",
  ("""            tuple_as_list = list(source_tuple) if source_tuple is not None else list()
            while len(tuple_as_list) <= self.__tuple_index:
                tuple_as_list.append(None)
            tuple_as_list[self.__tuple_index] = value
            setattr(self.source, self.__property_name, tuple(tuple_as_list))
""", """            elements = list(source_tuple or ())
            missing = self.__tuple_index + 1 - len(elements)
            elements.extend([None] * max(missing, 0))
            elements[self.__tuple_index] = value
            setattr(self.source, self.__property_name, tuple(elements))
"""),
  ("""                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                    self.update_target(value[self.__tuple_index])
                else:
                    self.update_target_direct(self.fallback)
""", """                element = value[self.__tuple_index] if value is not None and len(value) > self.__tuple_index else None
                if element is None:
                    self.update_target_direct(self.fallback)
                else:
                    self.update_target(element)
"""))
E("bind_prop", "Binding.py",
  ("""            assert not self._closed
            if property_name_ == self.__property_name:
                value = getattr(source, property_name)
                if value is not None:
                    self.update_target(value)
                else:
                    self.update_target_direct(self.fallback)
""", """            assert not self._closed
            if property_name_ != property_name:
                return
            self.__update(getattr(source, property_name))
"""),
  ("""        self.source_setter = lambda value: setattr(self.source, self.__property_name, value)
        self.source_getter = lambda: getattr(self.source, self.__property_name)

""", """        self.source_setter = lambda value: setattr(self.source, property_name, value)
        self.source_getter = lambda: getattr(self.source, property_name)

    def __update(self, value) -> None:
        if value is None:
            self.update_target_direct(self.fallback)
        else:
            self.update_target(value)

"""),
  ("""        if self.source_getter:
            source = self.source_getter()
            if source is not None:
                return self.__converted_value(source)
        return self.fallback
""", """        value = self.source_getter() if self.source_getter else None
        return self.fallback if value is None else self.__converted_value(value)
"""))
E("bind_list", "Binding.py",
  ("""            if key_ == self.__key and callable(self.inserter):
                self.inserter(item, before_index)
""", """            inserter = self.inserter
            if key_ == key and inserter is not None:
                inserter(item, before_index)
"""),
  ("""        self.__item_inserted_listener.close()
        self.__item_inserted_listener = None
        self.__item_removed_listener.close()
        self.__item_removed_listener = None
        super().close()
""", """        for listener in (self.__item_removed_listener, self.__item_inserted_listener):
            listener.close()
        self.__item_inserted_listener = None
        self.__item_removed_listener = None
        super().close()
"""))
E("validator", "Validator.py",
  ("""        if self.__min is not None:
            value = max(self.__min, value)
        if self.__max is not None:
            value = min(self.__max, value)
        return value
""", """        if self.__min is not None and value < self.__min:
            value = self.__min
        if self.__max is not None and value > self.__max:
            value = self.__max
        return value
"""))
# ---- Model / Observable
E("model_value", "Model.py",
  ("""        if self.__value is None:
            not_equal = value is not None
        elif value is None:
            not_equal = self.__value is not None
        else:
            not_equal = not self.__cmp(value, self.__value)
        if not_equal:
            self.__value = value
            self.notify_property_changed("value")
            if self.on_value_changed:
                self.on_value_changed(value)
""", """        if self.__is_equal(value):
            return
        self.__value = value
        self.notify_property_changed("value")
        if callable(self.on_value_changed):
            self.on_value_changed(value)

    def __is_equal(self, value) -> bool:
        if self.__value is None or value is None:
            return self.__value is value
        return self.__cmp(value, self.__value)
"""))
E("model_func", "Model.py",
  ("""                value_ref = [None]
                def eval(value_ref):
                    value_ref[0] = value_func()
                await event_loop.run_in_executor(None, eval, value_ref)
""", """                result = await event_loop.run_in_executor(None, value_func)
"""),
  ("""                    self.value = value_ref[0]
""", """                    self.value = result
"""))
# ---- StructuredModel
E("struct_close", "StructuredModel.py",
  ("""        for field_name in self.__field_models.keys():
            self.__field_model_property_changed_listeners[field_name].close()
            del self.__field_model_property_changed_listeners[field_name]
            self.__array_item_inserted_listeners[field_name].close()
            del self.__array_item_inserted_listeners[field_name]
            self.__array_item_removed_listeners[field_name].close()
            del self.__array_item_removed_listeners[field_name]
            self.__field_model_changed_listeners[field_name].close()
            del self.__field_model_changed_listeners[field_name]
""", """        for listeners in (self.__field_model_property_changed_listeners, self.__array_item_inserted_listeners,
                          self.__array_item_removed_listeners, self.__field_model_changed_listeners):
            for listener in listeners.values():
                listener.close()
            listeners.clear()
"""),
  ("""        d = dict()
        assert isinstance(self.schema, dict)
        for field_schema in self.schema["fields"]:
            field_name = field_schema["name"]
            field_value = self.__field_models[field_name].to_dict_value()
            if field_value is not None:
                d[field_name] = field_value
        return d
""", """        assert isinstance(self.schema, dict)
        names = [field_schema["name"] for field_schema in self.schema["fields"]]
        pairs = ((name, self.__field_models[name].to_dict_value()) for name in names)
        return {name: value for name, value in pairs if value is not None}
"""))
E("struct_array", "StructuredModel.py",
  ("""        l = list()
        for item in self.items:
            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
        return l
""", """        return [item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item for item in self.items]
"""),
  ("""        trampoline = None
        if isinstance(value, (RecordModel, ArrayModel)):
            trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
        self.__model_changed_listeners.insert(before_index, trampoline)
        self.model_changed_event.fire()
""", """        self.__model_changed_listeners.insert(before_index, self.__observe(value))
        self.model_changed_event.fire()

    def __observe(self, value):
        if isinstance(value, (RecordModel, ArrayModel)):
            return value.model_changed_event.listen(self.model_changed_event.fire)
        return None
"""))
# ---- Persistence
E("pers_write", "Persistence.py",
  ("""            if self.make:
                value = self.value
                if value is not None:
                    value_dict = value.write_dict()
                    properties[self.key] = value_dict
                else:
                    properties.pop(self.key, None)  # remove key
            else:
                value = self.json_value
                if value is not None:
                    properties[self.key] = value
                else:
                    properties.pop(self.key, None)  # remove key
""", """            value = self.__stored_value()
            if value is None:
                properties.pop(self.key, None)  # remove key
            else:
                properties[self.key] = value

    def __stored_value(self):
        if not self.make:
            return self.json_value
        value = self.value
        return value.write_dict() if value is not None else None
"""))
E("pers_read", "Persistence.py",
  ("""                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                self.__set_item(key, item)
""", """                self.__set_item(key, self.__read_item(key, factory, item_dict))
"""),
  ("""                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                # insert it into the relationship dict
                self.__insert_item(key, len(self.__relationships[key].values), item)
""", """                item = self.__read_item(key, factory, item_dict)
                # insert it into the relationship dict
                self.__insert_item(key, self.item_count(key), item)

    def __read_item(self, key, factory, item_dict):
        item = factory(lambda name, default=None: item_dict.get(name, default))
        if item is None:
            logging.debug("Unable to read %s", key)
        assert item is not None
        # read the item from the dict
        item.begin_reading()
        item.read_from_dict(item_dict)
        return item
"""))
E("pers_modified", "Persistence.py",
  ("""        self.__modified_count += 1
        self.modified_state += 1
        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent:
            parent.__update_modified(modified)
""", """        o = self
        while o:
            o.__modified = modified
            o.__modified_count += 1
            o.modified_state += 1
            o = o.persistent_object_parent.parent if o.persistent_object_parent else None
"""),
  ("""        item_index = relationship.values.index(item)
        relationship.values.remove(item)
""", """        item_index = relationship.values.index(item)
        del relationship.values[item_index]
"""))
E("pers_context", "Persistence.py",
  ("""        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None
""", """        while object is not None:
            weak_object = weakref.ref(object)
            if weak_object in self.__persistent_storages:
                return self.__persistent_storages[weak_object]
            parent = object.persistent_object_parent
            object = parent.parent if parent else None
        return None
"""),
  ("""        self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
        weak_object = self.__objects.get(object_uuid)
        object = weak_object and weak_object()
        if object is not None and registered:
            registered(object)
""", """        if object_uuid not in self.__subscriptions:
            self.__subscriptions[object_uuid] = list()
        self.__subscriptions[object_uuid].append((registered, unregistered))
        object = self.get_registered_object(object_uuid)
        if registered and object is not None:
            registered(object)
"""))
# ---- Registry
E("registry", "Registry.py",
  ("""    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)

    if len(sorted_components) > 0:
        return sorted_components[0]

    return None
""", """    return max(components, key=attrgetter("priority", 50), default=None)
"""),
  ("""        for component_type in component_types:
            component_set = self.__components_by_type.setdefault(component_type, set())
            component_set.add(component)
        self.__component_types.setdefault(component, set()).update(component_types)
""", """        self.__component_types.setdefault(component, set()).update(component_types)
        for component_type in component_types:
            if component_type not in self.__components_by_type:
                self.__components_by_type[component_type] = set()
            self.__components_by_type[component_type].add(component)
"""))
# ---- Process, ThreadPool, Promise, ReferenceCounting
E("proc_set", "Process.py",
  ("""        with self.__task_dict_mutex:
            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
""", """        with self.__task_dict_mutex:
            task_dict, self.__task_dict = self.__task_dict, dict()
        for task in list(task_dict.values()):
            task()
"""),
  ("""        with self.__task_dict_mutex:
            if key in self.__task_dict:
                self.__task_dict.pop(key, None)
""", """        with self.__task_dict_mutex:
            self.__task_dict.pop(key, None)
"""))
E("proc_queue", "Process.py",
  ("""        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
            qsize -= 1
""", """        for _ in range(self.qsize()):
            try:
                task = self.get_nowait()
            except queue.Empty:
                break
            task()
            self.task_done()
"""))
E("pool_helper", "ThreadPool.py",
  ("""    def __run(self):
        while True:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_all(self):
        while not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_one(self):
        if not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()""", """    def __process_next(self) -> bool:
        task = self.__queue.get()
        if task is not None and not self.__closed:
            task.execute()
        self.__queue.task_done()
        return task is not None

    def __run(self):
        while self.__process_next():
            pass

    def run_all(self):
        while not self.__queue.empty():
            if not self.__process_next():
                break

    def run_one(self):
        if not self.__queue.empty():
            self.__process_next()
"""))
E("pool_close", "ThreadPool.py",
  ("""        with self.__lock:
            self.__closed = True
            tasks = copy.copy(self.__tasks)
        for task in tasks:
            task.cancel()
        for _ in self.__threads:
            self.__queue.put(None)
        if len(self.__threads) > 0:
            self.__queue.join()
""", """        with self.__lock:
            tasks = list(self.__tasks)
            self.__closed = True
        while tasks:
            tasks.pop(0).cancel()
        if not self.__threads:
            return
        for _ in range(len(self.__threads)):
            self.__queue.put(None)
        self.__queue.join()
"""))
E("dispatcher_run", "ThreadPool.py",
  ("""            try:
                self.__fn()
            except Exception as e:
                import traceback
                logging.debug("Processing thread exception %s", e)
                traceback.print_exc()
                traceback.print_stack()
            self.__triggered_event.set()
            self.__last_time = time.time()
""", """            self.__invoke()
            self.__triggered_event.set()
            self.__last_time = time.time()

    def __invoke(self):
        try:
            self.__fn()
        except Exception as e:
            import traceback
            logging.debug("Processing thread exception %s", e)
            traceback.print_exc()
            traceback.print_stack()
"""))
E("dispatcher_trigger", "ThreadPool.py",
  ("""        if wait:
            with self.__thread_lock:
                if self.__thread_break:
                    return
                self.__triggered_event.clear()
                self.__thread_event.set()
            self.__triggered_event.wait()
        else:
            self.__thread_event.set()
""", """        if not wait:
            self.__thread_event.set()
            return
        with self.__thread_lock:
            closed = self.__thread_break
            if not closed:
                self.__triggered_event.clear()
                self.__thread_event.set()
        if not closed:
            self.__triggered_event.wait()
"""))
E("promise", "Promise.py",
  ("""        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        with self.__lock:
            fn = self.__fn
            if fn is not None:
                self.__value = fn()
                self.__fn = None
            value = self.__value
        return value
"""))
E("refcount", "ReferenceCounting.py",
  ("""        class RefContextManager(object):
            def __init__(self, item):
                self.__item = item
            def __enter__(self):
                self.__item.add_ref()
                return self
            def __exit__(self, type, value, traceback):
                self.__item.remove_ref()
        return RefContextManager(self)
""", """        return _RefContextManager(self)
"""),
  ("""class ReferenceCounted:
""", """class _RefContextManager:
    def __init__(self, item):
        self.__item = item

    def __enter__(self):
        self.__item.add_ref()
        return self

    def __exit__(self, type, value, traceback):
        self.__item.remove_ref()


class ReferenceCounted:
"""),
  ("""            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
                self.about_to_delete()
""", """            if not check or self.__ref_count > 0 or not self.__active:
                return
            self.__active = False
            self.about_to_delete()
"""))
# ---- Recorder
E("recorder", "Recorder.py",
  ("""    def apply(self, object):
        for logger_item in self.__logger:
            logger_item(object)
""", """    def apply(self, object):
        index = 0
        while index < len(self.__logger):
            self.__logger[index](object)
            index += 1
"""),
  ("""        for key, relationship_recorder_list in self.__relationship_recorders.items():
            for relationship_recorder in self.__relationship_recorders[key]:
                relationship_recorder.close()
""", """        for relationship_recorders in self.__relationship_recorders.values():
            for relationship_recorder in relationship_recorders:
                relationship_recorder.close()
"""))


# ---- a second batch, in another style
E("conv_percent", "Converter.py",
  ("""        return str(int(round(value * 100))) + "%"
""", """        return "%d%%" % round(value * 100)
"""),
  ("""        return float(formatted_value.strip('%'))/100.0
""", """        number = formatted_value.strip('%')
        return float(number) / 100
"""))
E("conv_float", "Converter.py",
  ("""        if self.__fuzzy:
            _parser = re.compile(r\"\"\"""", """        decimal_point = locale.localeconv().get("decimal_point", ".")
        if not self.__fuzzy:
            return locale.atof(formatted_value.replace(".", decimal_point) if decimal_point != '.' else formatted_value)
        else:
            _parser = re.compile(r\"\"\""""),
  ("""            if m is not None:
                # either period or comma is accepted as decimal point
                decimal_point = locale.localeconv().get("decimal_point", ".")
                return locale.atof(m.group(0).replace(",", ".").replace(".", decimal_point))
            return 0.0
        else:
            decimal_point = locale.localeconv().get("decimal_point", ".")
            if decimal_point != '.':
                return locale.atof(formatted_value.replace(".", decimal_point))
            return locale.atof(formatted_value)
""", """            if not m:
                return 0.0
            # either period or comma is accepted as decimal point
            return locale.atof(decimal_point.join(m.group().replace(",", ".").split(".")))
"""))
E("conv_parser_const", "Converter.py",
  ("""class IntegerToStringConverter:
""", """_NUMBER = re.compile(r"[-+]?(?=\\d|[.,]\\d)\\d*(?:[.,]\\d*)?(?:E[-+]?\\d+)?", re.IGNORECASE)


class IntegerToStringConverter:
"""),
  ("""            _parser = re.compile(r\"\"\"        # A numeric string consists of:
                (?P<sign>[-+])?              # an optional sign, followed by either...
                (
                    (?=\\d|[\\.,]\\d)              # ...a number (with at least one digit)
                    (?P<int>\\d*)             # having a (possibly empty) integer part
                    ([\\.,](?P<frac>\\d*))?       # followed by an optional fractional part
                    (E(?P<exp>[-+]?\\d+))?    # followed by an optional exponent, or...
                )
            \"\"\", re.VERBOSE | re.IGNORECASE).match
            m = _parser(formatted_value.strip())
""", """            m = _NUMBER.match(formatted_value.strip())
"""))
E("conv_scaled", "Converter.py",
  ("""        return int(round(self.n * (value - self.value_min) / (self.value_max - self.value_min)))
""", """        span = self.value_max - self.value_min
        return round(self.n * (value - self.value_min) / span)
"""),
  ("""        return value_int * (self.value_max - self.value_min) / self.n + self.value_min
""", """        span = self.value_max - self.value_min
        return self.value_min + span * value_int / self.n
"""))
E("conv_physical", "Converter.py",
  ("""        self.__format = format + " {:s}" if format else "{:g} {:s}"
""", """        self.__format = format or "{:g}"
"""),
  ("""        return self.__format.format(value * self.__multiplier, self.__units)
""", """        return f"{self.__format.format(value * self.__multiplier)} {self.__units}"
"""),
  ("""        return value / self.__multiplier if value is not None else None
""", """        if value is None:
            return None
        return value / self.__multiplier
"""))
E("geo_eq_helper", "Geometry.py",
  ("""    def __eq__(self, other):
        if other is not None:
            other = IntRect.make(other)
            return self.__origin == other.origin and self.__size == other.size
        return False

    def __ne__(self, other):
        if other is not None:
            other = IntRect.make(other)
            return self.__origin != other.origin or self.__size != other.size
        return True
""", """    def __eq__(self, other):
        if other is None:
            return False
        return tuple(self) == tuple(IntRect.make(other))

    def __ne__(self, other):
        return not self == other
"""),
  ("""    def __get_right(self):
        \"\"\" Return the right coordinate. \"\"\"
        return self.__origin.x + self.__size.width
""", """    def __get_right(self):
        \"\"\" Return the right coordinate. \"\"\"
        return self.left + self.width
"""))
E("geo_contains", "Geometry.py",
  ("""        point = IntPoint.make(point)
        return point.x >= self.left and point.x < self.right and point.y >= self.top and point.y < self.bottom
""", """        y, x = IntPoint.make(point)
        if not self.top <= y < self.bottom:
            return False
        return self.left <= x < self.right
"""),
  ("""        # if one rectangle is on left side of the other
        if self.left > rect.right or rect.left > self.right:
            return False
        # if one rectangle is above the other
        if self.bottom < rect.top or rect.bottom < self.top:
            return False
        return True
""", """        return (max(self.left, rect.left) <= min(self.right, rect.right)
                and max(self.top, rect.top) <= min(self.bottom, rect.bottom))
"""),
  ("""        top = max(self.top, rect.top)
        left = max(self.left, rect.left)
        bottom = min(self.bottom, rect.bottom)
        right = min(self.right, rect.right)
        return IntRect.from_tlbr(top, left, bottom, right)
""", """        (top, left), (bottom, right) = ([max(p) for p in zip(self.top_left, rect.top_left)],
                                        [min(p) for p in zip(self.bottom_right, rect.bottom_right)])
        return IntRect(origin=(top, left), size=(bottom - top, right - left))
"""))
E("geo_translate", "Geometry.py",
  ("""            return IntRect.from_center_and_size(self.center + other, self.size)
""", """            return self.translated(other)
"""),
  ("""            return IntRect.from_center_and_size(self.center - other, self.size)
        else:
            raise NotImplementedError()

""", """            return self.translated(-other)
        else:
            raise NotImplementedError()

"""),
  ("""        return IntPoint(y=(self.top + self.bottom) // 2, x=(self.left + self.right) // 2)
""", """        return IntPoint(y=self.top + self.height // 2, x=self.left + self.width // 2)
"""))
E("obs_helper", "Observable.py",
  ("""        self.property_changed_event = Event.Event()
        self.item_set_event = Event.Event()
        self.item_cleared_event = Event.Event()
        self.item_inserted_event = Event.Event()
        self.item_removed_event = Event.Event()
        self.item_added_event = Event.Event()
        self.item_discarded_event = Event.Event()
        self.item_content_changed_event = Event.Event()
""", """        for name in ("property_changed", "item_set", "item_cleared", "item_inserted", "item_removed",
                     "item_added", "item_discarded", "item_content_changed"):
            setattr(self, name + "_event", Event.Event())
"""),
  ("""        self.item_inserted_event.fire(key, value, before_index)
""", """        event = self.item_inserted_event
        event.fire(key, value, before_index)
"""))
E("rec_listeners", "Recorder.py",
  ("""        self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)
        self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)
        self.__item_cleared_event_listener = object.item_cleared_event.listen(self.__item_cleared)
        self.__item_inserted_event_listener = object.item_inserted_event.listen(self.__item_inserted)
        self.__item_removed_event_listener = object.item_removed_event.listen(self.__item_removed)
""", """        self.__listeners = [
            object.property_changed_event.listen(self.__property_changed),
            object.item_set_event.listen(self.__item_set),
            object.item_cleared_event.listen(self.__item_cleared),
            object.item_inserted_event.listen(self.__item_inserted),
            object.item_removed_event.listen(self.__item_removed),
        ]
"""),
  ("""        self.__property_changed_event_listener.close()
        self.__property_changed_event_listener = None
        self.__item_set_event_listener.close()
        self.__item_set_event_listener = None
        self.__item_cleared_event_listener.close()
        self.__item_cleared_event_listener = None
        self.__item_inserted_event_listener.close()
        self.__item_inserted_event_listener = None
        self.__item_removed_event_listener.close()
        self.__item_removed_event_listener = None
        for key, item_recorder in self.__item_recorders.items():
            item_recorder.close()
        self.__item_recorders = None
        for key, relationship_recorder_list in self.__relationship_recorders.items():
            for relationship_recorder in self.__relationship_recorders[key]:
                relationship_recorder.close()
        self.__relationship_recorders = None
""", """        while self.__listeners:
            self.__listeners.pop().close()
        recorders = list(self.__item_recorders.values())
        for l in self.__relationship_recorders.values():
            recorders.extend(l)
        for recorder in recorders:
            recorder.close()
        self.__item_recorders = None
        self.__relationship_recorders = None
"""),
  ("""            def property_setter(x):
                setattr(accessor_fn(x), key, copy.deepcopy(value))
            # print("set property {} {}".format(key, value))
            self.__logger.append(property_setter)
""", """            self.__logger.append(lambda x: setattr(accessor_fn(x), key, copy.deepcopy(value)))
"""))
E("registry_max", "Registry.py",
  ("""    def attrgetter(attrname, default=None):
        def inside(obj):
            return getattr(obj, attrname, default)
        return inside

    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)

    if len(sorted_components) > 0:
        return sorted_components[0]

    return None
""", """    best = None
    for component in components:
        if best is None or getattr(component, "priority", 50) > getattr(best, "priority", 50):
            best = component
    return best
"""),
  ("""        self.__component_types[component].difference_update(component_types)
        if len(self.__component_types[component]) == 0:
            self.__component_types.pop(component)
""", """        remaining = self.__component_types.pop(component) - component_types
        if remaining:
            self.__component_types[component] = remaining
"""))
E("refcount_gen", "ReferenceCounting.py",
  ("""import threading
""", """import contextlib
import threading
"""),
  ("""    def ref(self):
        class RefContextManager(object):
            def __init__(self, item):
                self.__item = item
            def __enter__(self):
                self.__item.add_ref()
                return self
            def __exit__(self, type, value, traceback):
                self.__item.remove_ref()
        return RefContextManager(self)
""", """    @contextlib.contextmanager
    def ref(self):
        self.add_ref()
        try:
            yield self
        finally:
            self.remove_ref()
"""))
E("promise_early", "Promise.py",
  ("""        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """        with self.__lock:
            fn = self.__fn
            if fn is None:
                return self.__value
            value = fn()
            if self.__fn is not None:
                self.__value = value
                self.__fn = None
            return self.__value
"""))
E("list_del", "ListModel.py",
  ("""        value = self.__items[index]
        del self.__items[index]
        self.notify_remove_item(self.__key if self.__key else "items", value, index)
""", """        value = self.__items.pop(index)
        self.notify_remove_item(self.__key or "items", value, index)
"""),
  ("""        while self.__items:
            self.remove_item(len(self.__items) - 1)
""", """        for index in reversed(range(len(self.__items))):
            self.remove_item(index)
"""))
E("bind_update", "Binding.py",
  ("""        if self.source_setter:
            converted_value = self.__validated_value(self.__back_converted_value(target_value))
            self.source_setter(converted_value)
""", """        setter = self.source_setter
        if not setter:
            return
        value = target_value
        if self.__converter:
            value = self.__converter.convert_back(value)
        if self.__validator:
            value = self.__validator.validate(value)
        setter(value)
"""),
  ("""        if self.source_getter:
            source = self.source_getter()
            if source is not None:
                return self.__converted_value(source)
        return self.fallback
""", """        source = self.source_getter() if self.source_getter else None
        return self.fallback if source is None else self.__converted_value(source)
"""))
E("sel_dict", "Selection.py",
  ("""        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
        if self.__anchor_index is not None:
            if new_index <= self.__anchor_index:
                self.__anchor_index += 1
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
""", """        anchor_index = self.__anchor_index
        if anchor_index is not None and anchor_index >= new_index:
            self.__anchor_index = anchor_index + 1
        for index in sorted(self.__indexes):
            new_indexes |= {index + (1 if index >= new_index else 0)}
        self.__indexes = new_indexes
"""),
  ("""        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes
""", """        anchor = self.__anchor_index
        return sorted(self.__indexes, key=lambda index: (index != anchor, index))
"""))
E("struct_build", "StructuredModel.py",
  ("""    if schema in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(value if value is not None else default_value)
    type = typing.cast(dict, schema).get("type")
    if type in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(value if value is not None else default_value)
    elif type == "record":
        record_values = copy.copy(default_value or dict())
        record_values.update(value or dict())
        return RecordModel(schema, values=record_values)
    elif type == "array":
        return ArrayModel(schema, value if value is not None else default_value)
""", """    type = schema if isinstance(schema, str) else schema.get("type")
    if type == "record":
        return RecordModel(schema, values={**(default_value or {}), **(value or {})})
    if value is None:
        value = default_value
    if type == "array":
        return ArrayModel(schema, value)
    if type in ("string", "boolean", "int", "float", "double"):
        return FieldPropertyModel(value)
    return None
"""))

E("geo_divmod", "Geometry.py",
  ("""        return IntPoint(y=(self.top + self.bottom) // 2, x=(self.left + self.right) // 2)
""", """        y, _ = divmod(self.top + self.bottom, 2)
        x, _ = divmod(self.left + self.right, 2)
        return IntPoint(y=y, x=x)
"""),
  ("""        return (self.__y, self.__x)[index]
""", """        return tuple(self)[index]
"""),
  ("""        return math.sqrt(pow(self.__x, 2) + pow(self.__y, 2))
""", """        return math.hypot(self.__x, self.__y)
"""),
  ("""        yield self.__height
        yield self.__width
""", """        yield from (self.__height, self.__width)
"""),
  ("""    if rect.aspect_ratio > aspect_ratio:
        # height will fill entire frame
        new_size = FloatSize(height=rect.height, width=rect.height * aspect_ratio)
        new_origin = FloatPoint(y=rect.top, x=rect.left + 0.5 * (rect.width - new_size.width))
        return FloatRect(origin=new_origin, size=new_size)
    else:
        new_size = FloatSize(height=rect.width / aspect_ratio, width=rect.width)
        new_origin = FloatPoint(y=rect.top + 0.5*(rect.height - new_size.height), x=rect.left)
        return FloatRect(origin=new_origin, size=new_size)
""", """    (top, left), (height, width) = rect
    if rect.aspect_ratio > aspect_ratio:
        new_height, new_width = height, height * aspect_ratio
    else:
        new_height, new_width = width / aspect_ratio, width
    dy = 0.5 * (height - new_height)
    dx = 0.5 * (width - new_width)
    return FloatRect.from_tlhw(top + dy, left + dx, new_height, new_width)
"""))
E("geo_pretty_table", "Geometry.py",
  ("""    if rounding:
        if val_norm < 1.5:
            val_norm = 1.0
        elif val_norm < 3.0:
            val_norm = 2.0
        elif val_norm < 7.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
    else:
        if val_norm <= 1.0:
            val_norm = 1.0
        elif val_norm <= 2.0:
            val_norm = 2.0
        elif val_norm <= 5.0:
            val_norm = 5.0
        else:
            val_norm = 10.0
""", """    if rounding:
        val_norm = next((pretty for limit, pretty in ((1.5, 1.0), (3.0, 2.0), (7.0, 5.0)) if val_norm < limit), 10.0)
    else:
        val_norm = next((pretty for pretty in (1.0, 2.0, 5.0) if val_norm <= pretty), 10.0)
"""))
E("geo_size_next", "Geometry.py",
  ("""        if height is not None:
            self.__height = int(height)
        elif h is not None:
            self.__height = int(h)
        else:
            self.__height = 0
        if width is not None:
            self.__width = int(width)
        elif w is not None:
            self.__width = int(w)
        else:
            self.__width = 0
""", """        first = lambda *values: int(next((value for value in values if value is not None), 0))
        self.__height, self.__width = first(height, h), first(width, w)
"""))
E("sel_setops", "Selection.py",
  ("""        old_index = copy.copy(self.__indexes)
        if self.selection_style == Style.single:
            self.__indexes = {0}
            self.__anchor_index = 0
        else:
            self.__indexes = set()
            self.__anchor_index = None
        if old_index != self.__indexes:
            self.__changed_event.fire()
""", """        is_single = self.selection_style is Style.single
        self.__replace({0} if is_single else set(), 0 if is_single else None)

    def __replace(self, indexes, anchor) -> None:
        previous, self.__indexes = self.__indexes, set(indexes)
        self.__anchor_index = anchor
        if previous ^ self.__indexes:
            self.__changed_event.fire()
"""),
  ("""            old_index = copy.copy(self.__indexes)
            self.__indexes = set()
            self.__indexes.add(index)
            self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
""", """            self.__replace([index], index)
"""),
  ("""            if self.__anchor_index is not None:
                if index > self.__anchor_index:
                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
                elif index < self.__anchor_index:
                    for new_index in range(index, self.__anchor_index + 1):
                        self.__indexes.add(new_index)
            else:
""", """            if self.__anchor_index is not None:
                if (anchor := self.__anchor_index) != index:
                    self.__indexes |= set(range(min(anchor, index), max(anchor, index) + 1))
            else:
"""),
  ("""        new_indexes = set()
        for index in self.__indexes:
            if index != remove_index:
                if index > remove_index:
                    new_indexes.add(index - 1)
                else:
                    new_indexes.add(index)
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes
""", """        self.__indexes = {index - (1 if index > remove_index else 0) for index in self.__indexes - {remove_index}}
"""))
E("proc_generator", "Process.py",
  ("""    def perform_tasks(self):
        # perform any pending operations
        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                task()
                self.task_done()
            qsize -= 1
""", """    def __pending(self):
        for _ in range(self.qsize()):
            try:
                yield self.get_nowait()
            except queue.Empty:
                return

    def perform_tasks(self):
        for task in self.__pending():
            task()
            self.task_done()
"""),
  ("""            if key in self.__task_dict:
                self.__task_dict.pop(key, None)
""", """            self.__task_dict.pop(key, None)
"""),
  ("""            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
""", """            tasks, self.__task_dict = list(self.__task_dict.values()), dict()
        for task in tasks:
            task()
"""))
E("reg_comprehension", "Registry.py",
  ("""        for component_type in component_types:
            assert component not in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            component_set = self.__components_by_type.setdefault(component_type, set())
            component_set.add(component)
""", """        assert not any(component in self.__components_by_type.get(component_type, ()) for component_type in component_types)
        for component_type in component_types:
            if component_type not in self.__components_by_type:
                self.__components_by_type[component_type] = {component}
            else:
                self.__components_by_type[component_type] |= {component}
"""),
  ("""        self.__component_types[component].difference_update(component_types)
        if len(self.__component_types[component]) == 0:
            self.__component_types.pop(component)
""", """        remaining = self.__component_types[component] - component_types
        if remaining:
            self.__component_types[component] = remaining
        else:
            del self.__component_types[component]
"""))
E("prom_sentinel", "Promise.py",
  ("""            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value
""", """            fn = self.__fn
            if fn is not None:
                value = fn()
                self.__value, self.__fn = value, None
            return self.__value
"""))
E("ref_contextlib", "ReferenceCounting.py",
  ("""import threading
""", """import contextlib
import threading
"""),
  ("""    def ref(self):
        class RefContextManager(object):
            def __init__(self, item):
                self.__item = item
            def __enter__(self):
                self.__item.add_ref()
                return self
            def __exit__(self, type, value, traceback):
                self.__item.remove_ref()
        return RefContextManager(self)
""", """    def ref(self):
        with contextlib.ExitStack() as stack:
            return self.__make_ref(stack)

    def __make_ref(self, stack):
        item = self
        class RefContextManager(contextlib.AbstractContextManager):
            def __enter__(self):
                item.add_ref()
                return self
            def __exit__(self, *exc_info):
                item.remove_ref()
        return RefContextManager()
"""))
E("pool_walrus", "ThreadPool.py",
  ("""        while True:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_all(self):
""", """        while self.__run_next():
            pass

    def __run_next(self):
        if task := self.__queue.get():
            if not self.__closed:
                task.execute()
        self.__queue.task_done()
        return task is not None

    def run_all(self):
"""),
  ("""        while not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break
""", """        while not self.__queue.empty() and self.__run_next():
            pass
"""),
  ("""        if not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
""", """        if not self.__queue.empty():
            self.__run_next()
"""))
E("conv_fstring", "Converter.py",
  ("""        return str(int(round(value * 100))) + "%"
""", """        return f"{round(value * 100):d}%"
"""),
  ("""        return float(formatted_value.strip('%'))/100.0
""", """        number, *_ = formatted_value.strip('%'),
        return float(number) / 100.0
"""),
  ("""        return int(round(self.n * (value - self.value_min) / (self.value_max - self.value_min)))
""", """        span = self.value_max - self.value_min
        offset = value - self.value_min
        return round(self.n * offset / span)
"""),
  ("""        try:
            if len(value) == 26:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
            elif len(value) == 19:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
        except ValueError as e:
            pass  # fall through
        return None
""", """        format = {26: "%Y-%m-%dT%H:%M:%S.%f", 19: "%Y-%m-%dT%H:%M:%S"}.get(len(value))
        if not format:
            return None
        try:
            return datetime.datetime.strptime(value, format)
        except ValueError:
            return None
"""))
E("ev_filter", "Event.py",
  ("""    def fire(self, *args, **keywords):
        \"\"\"Calls listeners (in order added) unconditionally.\"\"\"
        listener = None
        if self.__weak_listeners:
            try:
                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
            except Exception as e:
                self.__print_event_exception(listener)
""", """    def fire(self, *args, **keywords):
        \"\"\"Calls listeners (in order added) unconditionally.\"\"\"
        if not self.__weak_listeners:
            return
        self.__weak_listeners_mutex.acquire()
        try:
            listeners = tuple(self.__weak_listeners)
        finally:
            self.__weak_listeners_mutex.release()
        listeners = tuple(filter(None, (weak_listener() for weak_listener in listeners)))
        position = iter(listeners)
        listener = None
        try:
            while (listener := next(position, None)) is not None:
                listener.call(*args, **keywords)
        except Exception:
            self.__print_event_exception(listener)
"""),
  ("""        weak_listener = weakref.ref(listener, remove_listener)
        with self.__weak_listeners_mutex:
            self.__weak_listeners.append(weak_listener)
""", """        with self.__weak_listeners_mutex:
            self.__weak_listeners += [weakref.ref(listener, remove_listener)]
"""))
E("stream_cb", "Stream.py",
  ("""        def update_value(new_value):
            new_value = value_fn(new_value)
            if new_value != self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener = stream.value_stream.listen(update_value)
        update_value(stream.value)
""", """        self.__value_fn = value_fn
        self.__listener = stream.value_stream.listen(self.__update)
        self.__update(self.__stream.value)

    def __update(self, input_value):
        previous, self.__value = self.__value, self.__value_fn(input_value)
        if self.__value != previous:
            self.value_stream.fire(self.__value)
"""),
  ("""        self.__listeners = dict()  # index
        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index] = stream.value_stream.listen(functools.partial(self.__handle_stream_value, index))
            self.__values[index] = stream.value
        self.__values_changed()
""", """        self.__listeners = {
            index: stream.value_stream.listen(lambda value, index=index: self.__handle_stream_value(index, value))
            for index, stream in enumerate(self.__stream_list)}
        self.__values[:] = (stream.value for stream in self.__stream_list)
        self.__values_changed()
"""),
  ("""        if self.__value != value:
            self.__value = value
            self.value_stream.fire(self.value)
""", """        if self.__value == value:
            return
        self.__value = value
        self.value_stream.fire(value)
"""))
E("stream_async", "Stream.py",
  ("""        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            self.__value_dirty = False
            pending_value = self.__pending_value
        if value_dirty:
            self.__value = pending_value
            self.value_stream.fire(pending_value)
""", """        with self.__value_dirty_lock:
            if not self.__value_dirty:
                return
            self.__value_dirty = False
            self.__value = self.__pending_value
            value = self.__value
        self.value_stream.fire(value)
"""))
E("bind_close_loop", "Binding.py",
  ("""    def close(self):
        self.__item_inserted_listener.close()
        self.__item_inserted_listener = None
        self.__item_removed_listener.close()
        self.__item_removed_listener = None
        super().close()
""", """    def close(self):
        for listener in (self.__item_inserted_listener, self.__item_removed_listener):
            listener.close()
        self.__item_inserted_listener = self.__item_removed_listener = None
        super().close()
"""),
  ("""            tuple_as_list = list(source_tuple) if source_tuple is not None else list()
            while len(tuple_as_list) <= self.__tuple_index:
                tuple_as_list.append(None)
            tuple_as_list[self.__tuple_index] = value
            setattr(self.source, self.__property_name, tuple(tuple_as_list))
""", """            source_tuple = tuple(source_tuple or ())
            padding = (None, ) * max(0, self.__tuple_index + 1 - len(source_tuple))
            padded = source_tuple + padding
            setattr(self.source, self.__property_name,
                    tuple(value if index == self.__tuple_index else element for index, element in enumerate(padded)))
"""),
  ("""            return tuple_value[self.__tuple_index] if tuple_value is not None and self.__tuple_index < len(tuple_value) else None
""", """            try:
                return tuple_value[self.__tuple_index] if tuple_value is not None else None
            except IndexError:
                return None
"""))
E("model_cmp", "Model.py",
  ("""        if self.__value is None:
            not_equal = value is not None
        elif value is None:
            not_equal = self.__value is not None
        else:
            not_equal = not self.__cmp(value, self.__value)
        if not_equal:
            self.__value = value
            self.notify_property_changed("value")
            if self.on_value_changed:
                self.on_value_changed(value)
""", """        if self.__is_same(value):
            return
        self.__value = value
        self.notify_property_changed("value")
        callback = self.on_value_changed
        if callback:
            callback(value)

    def __is_same(self, value) -> bool:
        if self.__value is None or value is None:
            return self.__value is value
        return bool(self.__cmp(value, self.__value))
"""))
E("list_bisect", "ListModel.py",
  ("""        item_sort_key = sort_key(item)
        low = 0
        high = len(items)
        while low < high:
            mid = (low + high) // 2
            if sort_operator(sort_key(items[mid]), item_sort_key):
                low = mid + 1
            else:
                high = mid
        return low
""", """        item_sort_key = sort_key(item)
        index = 0
        for index, other in enumerate(items):
            if not sort_operator(sort_key(other), item_sort_key):
                return index
        return len(items)
"""),
  ("""        index = 0
        for item_ in master_items:
            if item_ == item:
                break
            if filter.matches(item_):
                index += 1
        return index
""", """        import itertools
        return sum(1 for item_ in itertools.takewhile(lambda x: x != item, master_items) if filter.matches(item_))
"""),
  ("""        return all(map(operator.methodcaller('matches', d), self.__filters))
""", """        for filter in self.__filters:
            if not filter.matches(d):
                return False
        return True
"""),
  ("""            kept_keys = [sort_key(item) for item in old_items if item in new_items_set]
            is_kept_sorted = not any(sort_operator(next_key, key) for key, next_key in zip(kept_keys, kept_keys[1:]))
""", """            kept_keys = [sort_key(item) for item in old_items if item in new_items_set]
            is_kept_sorted = all(not sort_operator(kept_keys[i], kept_keys[i - 1]) for i in range(1, len(kept_keys)))
"""))
E("list_flatten_sum", "ListModel.py",
  ("""            master_index = 0
            for master_item_ in self.__master_items:
                if master_item_ == master_item:
                    break
                master_index += len(self.__children.get(master_item_, list()))
            master_index += before_index
""", """            before = self.__master_items[:self.__master_items.index(master_item)]
            master_index = before_index + sum(len(self.__children.get(m, ())) for m in before)
"""))
E("struct_trampoline", "StructuredModel.py",
  ("""        for item in self.items:
            trampoline = None
            if isinstance(item, (RecordModel, ArrayModel)):
                trampoline = item.model_changed_event.listen(self.model_changed_event.fire)
            self.__model_changed_listeners.append(trampoline)
""", """        self.__model_changed_listeners = [self.__observe(item) for item in self.items]

    def __observe(self, item):
        if not isinstance(item, (RecordModel, ArrayModel)):
            return None
        return item.model_changed_event.listen(lambda: self.model_changed_event.fire())
"""),
  ("""        trampoline = None
        if isinstance(value, (RecordModel, ArrayModel)):
            trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
        self.__model_changed_listeners.insert(before_index, trampoline)
""", """        self.__model_changed_listeners[before_index:before_index] = [self.__observe(value)]
"""),
  ("""        d = dict()
        assert isinstance(self.schema, dict)
        for field_schema in self.schema["fields"]:
            field_name = field_schema["name"]
            field_value = self.__field_models[field_name].to_dict_value()
            if field_value is not None:
                d[field_name] = field_value
        return d
""", """        values = {name: model.to_dict_value() for name, model in self.__field_models.items()}
        return {name: value for name, value in values.items() if value is not None}
"""),
  ("""        for field_name in self.__field_models.keys():
            self.__field_model_property_changed_listeners[field_name].close()
            del self.__field_model_property_changed_listeners[field_name]
            self.__array_item_inserted_listeners[field_name].close()
            del self.__array_item_inserted_listeners[field_name]
            self.__array_item_removed_listeners[field_name].close()
            del self.__array_item_removed_listeners[field_name]
            self.__field_model_changed_listeners[field_name].close()
            del self.__field_model_changed_listeners[field_name]
""", """        for listeners in (self.__field_model_property_changed_listeners, self.__array_item_inserted_listeners,
                          self.__array_item_removed_listeners, self.__field_model_changed_listeners):
            while listeners:
                listeners.popitem()[1].close()
"""))
E("pers_storage_for", "Persistence.py",
  ("""        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None
""", """        while object is not None:
            storage = self.__persistent_storages.get(weakref.ref(object))
            if storage is not None:
                return storage
            parent = object.persistent_object_parent
            object = parent.parent if parent else None
        return None
"""),
  ("""        self.__modified_count += 1
        self.modified_state += 1
        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent:
            parent.__update_modified(modified)
""", """        target = self
        while target:
            target.__modified_count += 1
            target.modified_state += 1
            target.__modified = modified
            object_parent = target.persistent_object_parent
            target = object_parent.parent if object_parent else None
"""))
E("pers_property_writer", "Persistence.py",
  ("""        if self.writer:
            self.writer(self, properties, self.value)
        else:
            if self.make:
                value = self.value
                if value is not None:
                    value_dict = value.write_dict()
                    properties[self.key] = value_dict
                else:
                    properties.pop(self.key, None)  # remove key
            else:
                value = self.json_value
                if value is not None:
                    properties[self.key] = value
                else:
                    properties.pop(self.key, None)  # remove key
""", """        if self.writer:
            self.writer(self, properties, self.value)
            return
        if self.make:
            model = self.value
            stored = None if model is None else model.write_dict()
        else:
            stored = self.json_value
        if stored is None:
            properties.pop(self.key, None)
        else:
            properties[self.key] = stored
"""),
  ("""        for key in self.__relationships.keys():
            storage_key = self.__relationships[key].storage_key
            items_list = properties.setdefault(storage_key, list())
            for item in self.__relationships[key].values:
                items_list.append(item.write_to_dict())
""", """        for relationship in self.__relationships.values():
            properties.setdefault(relationship.storage_key, []).extend(item.write_to_dict() for item in relationship.values)
"""),
  ("""        item_index = relationship.values.index(item)
        relationship.values.remove(item)
""", """        item_index = relationship.values.index(item)
        relationship.values.pop(item_index)
"""))
E("rec_accessor_path", "Recorder.py",
  ("""        parent = self.__parent_recorder
        if not parent:
            return self.__accessor_fn
        def item_accessor(parent_accessor_fn: AccessorType, key: str, x):
            return getattr(parent_accessor_fn(x), key)
        def item_index_accessor(parent_accessor_fn: AccessorType, key: str, index: int, x):
            return getattr(parent_accessor_fn(x), key)[index]
        key = self.__parent_key
        if parent.__item_recorders.get(key) is self:
            return functools.partial(item_accessor, parent._accessor_fn, key)
        return functools.partial(item_index_accessor, parent._accessor_fn, key, parent.__relationship_recorders[key].index(self))
""", """        path = []
        recorder = self
        while recorder.__parent_recorder:
            parent, key = recorder.__parent_recorder, recorder.__parent_key
            is_item = parent.__item_recorders.get(key) is recorder
            path.insert(0, (key, None if is_item else parent.__relationship_recorders[key].index(recorder)))
            recorder = parent
        root_accessor_fn = recorder.__accessor_fn

        def accessor(x):
            x = root_accessor_fn(x)
            for key, index in path:
                x = getattr(x, key) if index is None else getattr(x, key)[index]
            return x

        return accessor
"""))

def run(entry):
    name, file, subs = entry
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        path = os.path.join(d, "repo/nion/utils", file)
        s = open(path).read()
        for old, new in subs:
            if old not in s:
                return name, ["text not found: " + old[:60]]
            s = s.replace(old, new, 1)
        open(path, "w").write(s)
        out = []
        t = subprocess.run("cd %s/repo && PYTHONPATH=%s/repo timeout 120 /opt/venv/bin/python -m pytest -q nion 2>&1 | tail -1" % (d, d), shell=True, capture_output=True, text=True).stdout.strip()
        if "failed" in t or "error" in t:
            out.append("tests: " + t)
        for p in PROPS[file[:-3]].split():
            r = subprocess.run(["timeout", "800", "python3-vt", "engine/run.py", p, "--jobs", "2"], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev"))
            txt = r.stdout + r.stderr
            if r.returncode or "NOT exhausted" in txt or "WARNING" in txt:
                out.append("%s rc=%d %s" % (p, r.returncode, " / ".join(l[:200] for l in txt.splitlines()[-4:])))
        return name, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = 4
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    todo = [e for e in R if not args or e[0] in args or e[1][:-3] in args]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for name, out in ex.map(run, todo):
            print(name, "quiet" if not out else "; ".join(out), flush=True)
