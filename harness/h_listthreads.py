"""C36: derived lists used by several threads."""
from engine.registry import harness
from engine.sched import Scheduler
from .lib import *
from .h_threads import STDLIB


class Thing:
    def __init__(self, M, n, v):
        self.n, self.v = n, v
        self.item_changed_event = M.Event.Event()


class Watch:
    """Applies the notifications of a list to a copy of it."""

    def __init__(self, l, items, grouped=True):
        self.copy, self.bad, self.depth, self.least = list(items), [], 0, 1 if grouped else 0
        self.tokens = [l.item_inserted_event.listen(self.inserted), l.item_removed_event.listen(self.removed)]
        if hasattr(l, "begin_changes_event"):
            self.tokens += [l.begin_changes_event.listen(self.begin), l.end_changes_event.listen(self.end)]

    def inserted(self, key, item, index):
        if not 0 <= index <= len(self.copy) or self.depth < self.least:
            self.bad.append(("insert", index))
        self.copy.insert(index, item)

    def removed(self, key, item, index):
        if not 0 <= index < len(self.copy) or self.copy[index] is not item or self.depth < self.least:
            self.bad.append(("remove", index))
        else:
            del self.copy[index]

    def begin(self, key):
        self.depth += 1

    def end(self, key):
        self.depth -= 1


@harness("C36", quick=[{"preemptions": 1, "sorted": s} for s in (0, 1)], thorough=[{"preemptions": 2, "sorted": s} for s in (0, 1)],
         bounds="a filtered list, sorted or not, of three items; one thread inserts or removes the first (unsorted: or last) item or changes it or marks the list changed, another sets the filter, sort key or direction, "
                "marks the list changed, makes a group of changes or reads the items; up to `preemptions` involuntary switches", assumes=STDLIB, path_seconds=30)
def filtered(ctx, M, preemptions, sorted):
    with Scheduler(ctx, ["ListModel"], preemptions) as (S, M):
        L = M.ListModel
        things = [Thing(M, i, v) for i, v in enumerate((4, 1, 2, 3))]
        source = L.ListModel("items", things[:3])
        f = L.FilteredListModel(container=source, items_key="items")
        key = lambda t: t.v
        if sorted:
            f.sort_key = key
        f.filter = L.PredicateFilter(lambda t: t.v != 2)
        w = Watch(f, f.items)
        seen = []
        at = 0 if sorted else ctx.choice("at", 2) * 2

        def insert():
            source.insert_item(at, things[3])

        def remove():
            source.remove_item(at)

        def change():
            things[at].v = 5 - things[at].v
            things[at].item_changed_event.fire()

        def refilter():
            f.filter = L.PredicateFilter(lambda t: t.v > 1)

        def resort():
            f.sort_key = lambda t: -t.v

        def reverse():
            f.sort_reverse = True

        def group():
            with f.changes():
                f.filter = L.PredicateFilter(lambda t: t.v > 1)
                f.sort_key = key

        def read():
            seen.append(f.items)
            seen.append(f.items)
        before = f.items
        one = ctx.pick("one", [insert, remove, change, f.mark_changed])
        two = ctx.pick("two", [refilter, resort, reverse, f.mark_changed, group, read])
        S.join_all([S.spawn(one), S.spawn(two)])
        ctx.check(not S.errors, "using a list in several threads does not fail")
        ctx.check(not w.bad and w.depth == 0, "each notification fits the list")
        want = [t for t in source.items if f.filter.matches(t)]
        got = f.items
        if f.sort_key:
            want.sort(key=f.sort_key, reverse=f.sort_reverse)
            ctx.check(set(got) == set(want) and [f.sort_key(t) for t in got] == [f.sort_key(t) for t in want], "in the end the list shows the matching items in order")
        else:
            ctx.check(same_ids(got, want), "in the end the list shows the matching items in order")
        ctx.check(same_ids(w.copy, got), "and so does a copy that followed its notifications")
        ctx.check(all(same_ids(l, before) or same_ids(l, got) for l in seen), "what is read is the list before or after the change")


class Box(Thing):
    def __init__(self, M, n, names):
        super().__init__(M, n, 0)
        self.M = M
        self.list = M.ListModel.ListModel("children", names)
        self.item_inserted_event, self.item_removed_event = self.list.item_inserted_event, self.list.item_removed_event

    @property
    def children(self):
        return self.list.items


@harness("C36", quick={"preemptions": 1}, thorough={"preemptions": 2},
         bounds="a flattened list of three containers with one or two children each; two threads, one changing the children of a container, the other those of another, or the list of "
                "containers elsewhere, or reading the items; a selection; up to `preemptions` involuntary switches", assumes=STDLIB, path_seconds=30)
def flattened(ctx, M, preemptions):
    with Scheduler(ctx, ["ListModel"], preemptions) as (S, M):
        L = M.ListModel
        boxes = [Box(M, i, [Thing(M, "%d%d" % (i, k), k) for k in range(1 + i % 2)]) for i in range(4)]
        source = L.ListModel("boxes", boxes[:3])
        f = L.FlattenedListModel(container=source, master_items_key="boxes", child_items_key="children", items_key="children")
        w = Watch(f, f.items, grouped=False)
        selection = f.make_selection()
        last = f.items[-1]
        selection.set(len(f.items) - 1)
        seen = []

        def insert(i):
            boxes[i].list.insert_item(ctx_at, Thing(M, "new%d" % i, 9))

        def remove(i):
            boxes[i].list.remove_item(0)

        def insert_box(i):
            source.insert_item(1, boxes[3])

        def remove_box(i):
            source.remove_item(1)

        def read(i):
            seen.append(f.items)
            seen.append(f.items)
        before = f.items
        ctx_at = ctx.choice("at", 2)
        one = ctx.pick("one", [insert, remove, insert_box, remove_box])
        two = ctx.pick("two", [insert, remove, read] if one in (insert_box, remove_box) else [insert, remove, insert_box, remove_box, read])
        S.join_all([S.spawn(one, 0), S.spawn(two, 2 if two in (insert, remove) and (one in (insert_box, remove_box) or ctx.bool("last")) else 1)])
        ctx.check(not S.errors, "using a list in several threads does not fail")
        want = [c for b in source.items for c in b.children]
        ctx.check(same_ids(f.items, want), "in the end the list is the concatenation of the children")
        ctx.check(not w.bad and same_ids(w.copy, want), "and so is a copy that followed its notifications")
        ctx.check([want[i] for i in selection.indexes] == [last for c in want if c is last], "a selection selects the same item")
        ctx.check(all(same_ids(l, before) or same_ids(l, want) for l in seen), "what is read is the list before or after the change")


@harness("C36", quick={"preemptions": 1}, thorough={"preemptions": 2},
         bounds="a mapped list of two items; one thread inserts and removes an item, another reads the items (twice) or makes an empty group of changes; up to `preemptions` involuntary switches",
         assumes=STDLIB, path_seconds=30)
def mapped(ctx, M, preemptions):
    with Scheduler(ctx, ["ListModel"], preemptions) as (S, M):
        L = M.ListModel
        things = [Thing(M, i, i) for i in range(3)]
        source = L.ListModel("items", things[:2])
        mapped_of, gone = {}, []

        def make(t):
            mapped_of[t] = ("mapped", t)
            return mapped_of[t]
        f = L.MappedListModel(container=source, master_items_key="items", items_key="mapped", map_fn=make, unmap_fn=gone.append)
        w = Watch(f, f.items, grouped=False)
        seen = []

        def change():
            source.insert_item(1, things[2])
            source.remove_item(0)

        def read():
            seen.append(f.items)
            seen.append(f.mapped)
        one = ctx.pick("one", [change, f.mark_changed])
        two = ctx.pick("two", [read, f.mark_changed])
        S.join_all([S.spawn(one), S.spawn(two)])
        ctx.check(not S.errors, "using a list in several threads does not fail")
        want = [mapped_of[t] for t in source.items]
        ctx.check(same_ids(f.items, want), "in the end the list has the mapped items in order")
        ctx.check(not w.bad and w.depth == 0 and same_ids(w.copy, want), "and so has a copy that followed its notifications")
        ctx.check(gone == [] if one != change else len(gone) == 1 and gone[0] is mapped_of[things[0]], "an item that left is unmapped once")
        states = [[0, 1], [0, 2, 1], [2, 1]]
        ctx.check(all([x[1].n for x in l] in states for l in seen), "what is read is a state of the list")
