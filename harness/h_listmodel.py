"""C06..C10: list models."""
from engine.registry import harness
from . import lib
from .lib import *


class LItem(Item):
    def __init__(self, M, n, key, vis, down=False):
        super().__init__(n, down)
        self.key, self.vis = key, vis
        self.item_changed_event = M.Event.Event()


@harness("C06", quick={"n": 3, "steps": 3}, thorough={"n": 3, "steps": 4},
         bounds="a list model with up to n initial items and `steps` inserts/removes/clears at any valid position")
def list_model(ctx, M, n, steps):
    key = ctx.pick("key", [None, "things"])
    k0 = ctx.choice("n0", n + 1)
    Item = ctx.pick("equal", [lib.Item, Twin])  # items may be equal to each other
    items = [Item(i) for i in range(k0)]
    initial = list(items)
    m = M.ListModel.ListModel(key, initial) if key else M.ListModel.ListModel(items=initial)
    name = key or "items"
    mirror = Mirror(m, name, items)
    seen = []
    hold = (m.item_inserted_event.listen(lambda k, v, i: seen.append(("i", v, i, list(m.items)))),
            m.item_removed_event.listen(lambda k, v, i: seen.append(("r", v, i, list(m.items)))))
    ref = list(items)
    for k in range(steps):
        del seen[:]
        ops = ["insert", "append", "clear"] + (["remove"] if ref else [])
        op = ctx.pick("op%d" % k, ops)
        before = list(ref)
        if op == "insert":
            i = ctx.int("i%d" % k, 0, len(ref))
            it = Item(10 + k)
            m.insert_item(i, it)
            ref.insert(i, it)
            ctx.check(len(seen) == 1, "one notification per insertion")
            ctx.check(seen[0][0] == "i" and seen[0][1] is it and seen[0][2] == i, "insertion notification describes it")
            ctx.check(same_ids(seen[0][3], ref), "list already updated when the insertion is announced")
        elif op == "append":
            it = Item(10 + k)
            m.append_item(it)
            ref.append(it)
            ctx.check(len(seen) == 1 and seen[0][1] is it and seen[0][2] == len(ref) - 1, "append announced at the end")
        elif op == "remove":
            i = ctx.int("i%d" % k, 0, len(ref) - 1)
            m.remove_item(i)
            it = ref.pop(i)
            ctx.check(len(seen) == 1, "one notification per removal")
            ctx.check(seen[0][0] == "r" and seen[0][1] is it and seen[0][2] == i, "removal notification describes it")
            ctx.check(same_ids(seen[0][3], ref), "list already updated when the removal is announced")
        else:
            m.clear_items()
            ctx.check(len(seen) == len(ref) and all(s[0] == "r" for s in seen), "clearing announces every removal")
            for t in seen:
                del ref[t[2]]
                ctx.check(same_ids(t[3], ref), "the list shows the removals announced so far")
            ref = []
        ctx.check(same_ids(m.items, ref), "items")
        if key:
            ctx.check(same_ids(getattr(m, key), ref), "items under their key")
        ctx.check(mirror.bad is None, "notifications fit the list they are applied to")
        ctx.check(same_ids(mirror.list, ref), "notifications rebuild the list")
    ctx.check(same_ids(initial, items), "the caller's list is not aliased")


@harness("C06", quick={"n": 14, "steps": 2}, thorough={"n": 16, "steps": 2},
         bounds="a list model of n items of different kinds, with false values, equal items and the same item several times, and a second list model; `steps` inserts, "
                "removes or appends at any position of the first (of an item that is already there, or None); listeners of each")
def long_list(ctx, M, n, steps):
    a, b = Item(1), Twin(2)
    kinds = [a, None, 0, "", b, a, Twin(2), False, (), None, 5, "x", [], a]
    items = kinds[:n]
    key = ctx.pick("key", [None, "items", "things"])
    m = M.ListModel.ListModel(key, list(items))
    other = M.ListModel.ListModel(key, [1, 2])
    mirror = Mirror(m, key or "items", items)
    quiet = Mirror(other, key or "items", [1, 2])
    ref = list(items)
    for k in range(steps):
        op = ctx.pick("op%d" % k, ["insert", "remove", "append"])
        count = mirror.count
        if op == "insert":
            i = ctx.choice("i%d" % k, len(ref) + 1)
            it = ctx.pick("it%d" % k, [a, None, b])
            m.insert_item(i, it)
            ref.insert(i, it)
        elif op == "remove":
            i = ctx.choice("i%d" % k, len(ref))
            m.remove_item(i)
            del ref[i]
        else:
            it = ctx.pick("it%d" % k, [a, None, b])
            m.append_item(it)
            ref.append(it)
        ctx.check(mirror.count == count + 1, "one notification per change")
        ctx.check(mirror.bad is None, "notifications fit the list they are applied to")
        ctx.check(same_ids(mirror.list, ref), "notifications rebuild the list")
        ctx.check(same_ids(m.items, ref), "items")
        if key:
            ctx.check(same_ids(getattr(m, key), ref), "items under their key")
    m.clear_items()
    ctx.check(mirror.bad is None and mirror.list == [] and list(m.items) == [], "clearing announces every removal")
    ctx.check(quiet.count == 0 and list(other.items) == [1, 2], "another list model is not affected")
    other.append_item(3)
    ctx.check(quiet.count == 1 and list(other.items) == [1, 2, 3] and mirror.list == [], "another list model works by itself")


# --------------------------------------------------------------------------- filtered

class Ref:
    """Reference for a filtered list: what the content must be."""

    def __init__(self):
        self.filter = None
        self.sort = None
        self.reverse = False

    def passes(self, it):
        if self.filter is None:
            return True
        return it.vis if self.filter == "vis" else not_(it.vis)


def content_ok(ctx, model, ref, master, label):
    got = list(model)
    want = [it for it in master if ref.passes(it)]
    ctx.check(len(got) == len(want) and all(any(a is b for b in want) for a in got), label + ": the filtered items")
    if ref.sort is None:
        ctx.check(same_ids(got, want), label + ": container order when unsorted")
    else:
        for a, b in zip(got, got[1:]):
            ctx.check(a.key >= b.key if ref.reverse else a.key <= b.key, label + ": sorted by the sort key")


class Brackets:
    def __init__(self, model, key):
        self.depth = 0
        self.key = key
        self.bad = None
        self.total = 0
        self.l = [model.begin_changes_event.listen(self.begin), model.end_changes_event.listen(self.end),
                  model.item_inserted_event.listen(self.note), model.item_removed_event.listen(self.note)]

    def begin(self, key):
        self.total += 1
        self.depth += 1
        if key != self.key:
            self.bad = self.bad or "key"

    def end(self, key):
        self.depth -= 1
        if key != self.key:
            self.bad = self.bad or "key"
        if self.depth < 0:
            self.bad = self.bad or "end without begin"

    def note(self, key, item, index):
        if self.depth <= 0:
            self.bad = self.bad or "change outside begin/end"


def set_filter(M, f, ref, which):
    ref.filter = which
    if which is None:
        f.filter = M.ListModel.Filter(True)
    elif which == "vis":
        f.filter = M.ListModel.PredicateFilter(lambda it: it.vis)
    else:
        f.filter = M.ListModel.PredicateFilter(lambda it: not_(it.vis))


def set_sort(f, ref, s):
    ref.sort = s
    f.sort_key = (lambda it: it.key) if s else None


def set_reverse(f, ref, r):
    ref.reverse = r
    f.sort_reverse = r


class World:
    def __init__(self, ctx, M, n, down=False):
        self.ctx, self.M, self.down = ctx, M, down
        self.count = 0
        self.master = [self.new_item("n%d" % i) for i in range(n)]
        self.container = M.ListModel.ListModel("src", list(self.master))
        self.ref = Ref()

    def new_item(self, tag):
        it = LItem(self.M, self.count, self.ctx.int("key_" + tag, 0, 100), self.ctx.bool("vis_" + tag), self.down)
        self.count += 1
        return it

    def mutate(self, op, tag):
        """One change of the source."""
        ctx = self.ctx
        if op == "insert":
            i = ctx.int("at_" + tag, 0, len(self.master))
            it = self.new_item(tag)
            i = int(i)
            self.container.insert_item(i, it)
            self.master.insert(i, it)
        elif op == "remove":
            i = int(ctx.int("at_" + tag, 0, len(self.master) - 1))
            self.container.remove_item(i)
            del self.master[i]
        elif op in ("key", "vis"):
            i = int(ctx.int("at_" + tag, 0, len(self.master) - 1))
            it = self.master[i]
            if op == "key":
                it.key = ctx.int("key2_" + tag, 0, 100)
            else:
                it.vis = not_(it.vis)
            it.item_changed_event.fire()

    def mutations(self):
        return ["insert"] + (["remove", "key", "vis"] if self.master else [])


CONFIGS = [(None, None, False), ("vis", None, False), (None, "key", False), ("vis", "key", False), ("vis", "key", True),
           (None, None, True)]


def configure(ctx, M, f, ref, config):
    filt, sort, rev = config
    if sort:
        set_sort(f, ref, sort)
    if rev:
        set_reverse(f, ref, rev)
    if filt:
        set_filter(M, f, ref, filt)


def filtered_run(ctx, M, n, steps, content, grouped, config, down, reconf):
    w = World(ctx, M, n, down)
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    mirror = Mirror(f, "dst", f.items)
    br = Brackets(f, "dst")
    configure(ctx, M, f, w.ref, CONFIGS[config])

    def verify(label):
        if content:
            content_ok(ctx, f.items, w.ref, w.master, label)
            ctx.check(same_ids(f.dst, f.items), "items under their key")
        else:
            ctx.check(br.bad is None and br.depth == 0, label + ": changes bracketed and balanced")
            ctx.check(mirror.bad is None, label + ": each notification fits the list it is applied to")
            ctx.check(same_ids(mirror.list, f.items), label + ": notifications rebuild the list")

    verify("initial")
    if grouped:
        # an established (already updated) list, then one grouped change
        if ctx.bool("established"):
            f.mark_changed()
            verify("established")
        b0 = br.total
        frozen = list(f.items)
        nested = ctx.bool("nested")
        f.begin_change()
        if nested:
            f.begin_change()
        for k in range(steps):
            ops = w.mutations() + (["sort", "reverse", "filter"] if reconf else [])
            op = ctx.pick("op%d" % k, ops)
            apply(ctx, M, w, f, op, str(k))
        if nested:
            f.end_change()
            ctx.check(same_ids(f.items, frozen), "grouped changes are not visible before the group ends")
        f.end_change()
        if not content and not reconf:
            ctx.check(br.total > b0, "grouped: bracketed")
        verify("grouped")
    else:
        for k in range(steps):
            ops = w.mutations() + (["sort", "reverse", "filter", "mark"] if reconf else [])
            op = ctx.pick("op%d" % k, ops)
            apply(ctx, M, w, f, op, str(k))
            verify(op)
    return w, f


def apply(ctx, M, w, f, op, tag):
    if op == "sort":
        set_sort(f, w.ref, "key" if w.ref.sort is None else None)
    elif op == "reverse":
        set_reverse(f, w.ref, not w.ref.reverse)
    elif op == "filter":
        set_filter(M, f, w.ref, {None: "vis", "vis": "not", "not": None}[w.ref.filter])
    elif op == "mark":
        f.mark_changed()
    else:
        w.mutate(op, tag)


def P(n, steps, grouped, config, down=False, reconf=False):
    return {"n": n, "steps": steps, "grouped": grouped, "config": config, "down": down, "reconf": reconf}


ALL = range(len(CONFIGS))
Q1 = [P(2, 2, False, c) for c in ALL] + [P(3, 1, False, c, reconf=True) for c in ALL] + \
     [P(2, 2, True, c) for c in (0, 1, 2, 5)] + [P(2, 1, True, c) for c in (3, 4)] + [P(3, 1, True, 2)] + \
     [P(2, 2, True, c, down=True) for c in (0, 5)] + [P(2, 1, True, 3, down=True)] + \
     [P(1, 2, g, c, reconf=True) for c in (0, 4) for g in (False, True)]
T1 = Q1 + [P(2, 2, True, c) for c in (3, 4)] + [P(2, 2, True, c, down=True) for c in (2, 3)] + \
     [P(3, 2, False, c) for c in (0, 1, 2, 5)] + [P(3, 1, True, c, reconf=True) for c in (0, 1, 2)] + \
     [P(2, 2, False, c, reconf=True) for c in ALL]

FB = ("n initial items with any integer key 0..100 and any visibility, one of six filter/sort/reverse configurations, "
      "then `steps` insertions, removals, key or visibility changes (reconf: also filter/sort/reverse changes) at any "
      "position, singly or in one (possibly nested) group")


@harness("C07", quick=Q1, thorough=T1, bounds=FB)
def filtered_content(ctx, M, n, steps, grouped, config, down, reconf):
    filtered_run(ctx, M, n, steps, True, grouped, config, down, reconf)


@harness("C08", quick=Q1, thorough=T1, bounds=FB)
def filtered_notifications(ctx, M, n, steps, grouped, config, down, reconf):
    filtered_run(ctx, M, n, steps, False, grouped, config, down, reconf)


def chained_run(ctx, M, n, steps, content, config):
    """A filtered list of a filtered list; the source is changed, or one of the lists is reconfigured."""
    w = World(ctx, M, n)
    r1, r2 = Ref(), Ref()
    f1 = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="mid")
    configure(ctx, M, f1, r1, CONFIGS[config[0]])
    f2 = M.ListModel.FilteredListModel(container=f1, master_items_key="mid", items_key="dst")
    mirror, br = Mirror(f2, "dst", f2.items), Brackets(f2, "dst")
    configure(ctx, M, f2, r2, CONFIGS[config[1]])

    def verify(label):
        mid = f1.items
        if content:
            content_ok(ctx, mid, r1, w.master, "first list: " + label)
            content_ok(ctx, f2.items, r2, mid, "second list: " + label)
        else:
            ctx.check(br.bad is None and br.depth == 0, label + ": changes bracketed and balanced")
            ctx.check(mirror.bad is None, label + ": each notification fits the list it is applied to")
            ctx.check(same_ids(mirror.list, f2.items), label + ": notifications rebuild the list")

    verify("initial")
    for k in range(steps):
        op = ctx.pick("op%d" % k, w.mutations() + ["sort", "reverse", "filter", "group"])
        if op == "group":
            with f1.changes():
                w.mutate(ctx.pick("gop%d" % k, w.mutations()), "g%d" % k)
        elif op in ("sort", "reverse", "filter"):
            which = ctx.choice("which%d" % k, 2)
            f, r = ((f1, r1), (f2, r2))[which]
            w.ref = r
            apply(ctx, M, w, f, op, str(k))
        else:
            w.mutate(op, str(k))
        verify(op)
    f2.close()
    f1.close()


def switch_run(ctx, M, n, content, config, grouped):
    """Changing the container: the list shows the new one only, and follows the new one only."""
    w = World(ctx, M, n)
    other = [w.new_item("o%d" % i) for i in range(ctx.choice("n_other", n + 1))]
    c2 = M.ListModel.ListModel("src", list(other))
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")
    configure(ctx, M, f, w.ref, CONFIGS[config])
    target = ctx.pick("target", ["other", "none"])
    if grouped:
        with f.changes():
            f.container = c2 if target == "other" else None
    else:
        f.container = c2 if target == "other" else None
    master = other if target == "other" else []
    late = w.new_item("late")
    w.container.append_item(late)           # the old container no longer matters
    if w.master and ctx.bool("old_item_changes"):
        it = w.master[0]
        it.vis = not_(it.vis)
        it.item_changed_event.fire()
    late2 = w.new_item("late2")
    c2.insert_item(0, late2)
    if target == "other":
        master.insert(0, late2)
    if content:
        content_ok(ctx, f.items, w.ref, master, "after changing the container")
    else:
        ctx.check(br.bad is None and br.depth == 0, "container: changes bracketed and balanced")
        ctx.check(mirror.bad is None, "container: each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, f.items), "container: notifications rebuild the list")
    f.close()
    c2.append_item(w.new_item("late3"))
    ctx.check(len(f.items) == 0 and (content or len(mirror.list) == 0), "a closed list is empty and stays so")


CQ = [{"n": 2, "steps": 1, "config": c} for c in ((1, 2), (2, 1), (0, 4), (5, 0))]
CT = [{"n": 2, "steps": 2, "config": c} for c in ((1, 2), (2, 1), (0, 0), (5, 0))] + \
     [{"n": 3, "steps": 1, "config": c} for c in ((1, 2), (2, 1), (0, 4))]
SQ = [{"n": 1, "config": c, "grouped": g} for c in (0, 1, 3, 4) for g in (False, True)]
ST = SQ + [{"n": 2, "config": c, "grouped": g} for c in (0, 1, 2) for g in (False, True)]
CB = "two filtered lists in sequence over n items with arbitrary keys and visibility, `steps` changes of any kind"
SB = "n items in the old, up to n in the new container, with arbitrary keys and visibility; then one change of each"


@harness("C07", quick=CQ, thorough=CT, bounds=CB)
def chained_content(ctx, M, n, steps, config):
    chained_run(ctx, M, n, steps, True, config)


@harness("C08", quick=CQ, thorough=CT, bounds=CB)
def chained_notifications(ctx, M, n, steps, config):
    chained_run(ctx, M, n, steps, False, config)


@harness("C07", quick=SQ, thorough=ST, bounds=SB)
def container_content(ctx, M, n, config, grouped):
    switch_run(ctx, M, n, True, config, grouped)


@harness("C08", quick=SQ, thorough=ST, bounds=SB)
def container_notifications(ctx, M, n, config, grouped):
    switch_run(ctx, M, n, False, config, grouped)


def bulk_run(ctx, M, n, inserts, content, config, rekey, down=False):
    """One group applies an arbitrary transformation to an established list."""
    w = World(ctx, M, n, down)
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    configure(ctx, M, f, w.ref, CONFIGS[config])
    f.mark_changed()
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")
    with f.changes():
        for i in reversed(range(n)):
            acts = ["keep", "remove"] + (["flip"] if w.ref.filter else []) + (["key"] if rekey else [])
            a = ctx.pick("act%d" % i, acts)
            it = w.master[i]
            if a == "remove":
                w.container.remove_item(i)
                del w.master[i]
            elif a == "flip":
                it.vis = not_(it.vis)
                it.item_changed_event.fire()
            elif a == "key":
                it.key = ctx.int("key2_%d" % i, 0, 100)
                it.item_changed_event.fire()
        for k in range(ctx.choice("inserts", inserts + 1)):
            w.mutate("insert", "i%d" % k)
    if content:
        content_ok(ctx, f.items, w.ref, w.master, "group")
    else:
        ctx.check(br.bad is None and br.depth == 0, "group: changes bracketed and balanced")
        ctx.check(mirror.bad is None, "group: each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, f.items), "group: notifications rebuild the list")


def BP(n, inserts, config, rekey=False, down=False):
    return {"n": n, "inserts": inserts, "config": config, "rekey": rekey, "down": down}


BQ = [BP(4, 1, 0), BP(4, 0, 1), BP(3, 1, 1), BP(4, 0, 5), BP(3, 1, 2), BP(2, 2, 0), BP(2, 2, 0, down=True), BP(2, 0, 4, rekey=True),
      BP(3, 0, 2, rekey=True), BP(2, 1, 3)]
BT = BQ + [BP(5, 1, 0), BP(4, 1, 1), BP(3, 2, 0), BP(3, 2, 0, down=True), BP(4, 1, 2), BP(3, 0, 3, rekey=True), BP(3, 1, 2, rekey=True)]
BB = "an established list of n items with arbitrary keys/visibility; in one group every item is kept, removed, hidden/shown " \
     "or re-keyed and up to `inserts` new items are inserted anywhere"


@harness("C07", quick=BQ, thorough=BT, bounds=BB)
def bulk_content(ctx, M, n, inserts, config, rekey, down):
    bulk_run(ctx, M, n, inserts, True, config, rekey, down)


@harness("C08", quick=BQ, thorough=BT, bounds=BB)
def bulk_notifications(ctx, M, n, inserts, config, rekey, down):
    bulk_run(ctx, M, n, inserts, False, config, rekey, down)


def readd_run(ctx, M, n, content, config, grouped):
    """An item leaves the container, perhaps changes meanwhile, comes back and changes again."""
    w = World(ctx, M, n)
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    configure(ctx, M, f, w.ref, CONFIGS[config])
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")

    def verify(label):
        if content:
            content_ok(ctx, f.items, w.ref, w.master, label)
        else:
            ctx.check(br.bad is None and br.depth == 0, label + ": changes bracketed and balanced")
            ctx.check(mirror.bad is None, label + ": each notification fits the list it is applied to")
            ctx.check(same_ids(mirror.list, f.items), label + ": notifications rebuild the list")

    if grouped:
        f.begin_change()
    i = ctx.choice("out", n)
    it = w.master.pop(i)
    w.container.remove_item(i)
    meanwhile = ctx.pick("meanwhile", ["nothing", "key", "vis"])
    if meanwhile == "key":
        it.key = ctx.int("key_meanwhile", 0, 100)
        it.item_changed_event.fire()
    elif meanwhile == "vis":
        it.vis = not_(it.vis)
        it.item_changed_event.fire()
    j = ctx.choice("in", n)
    w.master.insert(j, it)
    w.container.insert_item(j, it)
    if grouped:
        f.end_change()
    verify("removed and inserted again")
    if ctx.bool("change key"):
        it.key = ctx.int("key_later", 0, 100)
    else:
        it.vis = not_(it.vis)
    it.item_changed_event.fire()
    verify("changed afterwards")


RQ = [{"n": 2, "config": c, "grouped": g} for c in (1, 2, 4) for g in (False, True)]
RT = [{"n": 3, "config": c, "grouped": g} for c in (1, 2, 4) for g in (False, True)]
RB = "n items with any key and visibility; one is removed, perhaps changed, inserted again anywhere (perhaps in one group) and changed again"


@harness("C07", quick=RQ, thorough=RT, bounds=RB)
def readded_content(ctx, M, n, config, grouped):
    readd_run(ctx, M, n, True, config, grouped)


@harness("C08", quick=RQ, thorough=RT, bounds=RB)
def readded_notifications(ctx, M, n, config, grouped):
    readd_run(ctx, M, n, False, config, grouped)


def large_run(ctx, M, n, content, steps):
    """Longer lists with keys in one of a few fixed orders: changes of order and filter, singly or in a group."""
    w = World.__new__(World)
    w.ctx, w.M, w.down, w.count = ctx, M, False, 0
    k = ctx.choice("n", n + 1)
    order = ctx.pick("order", ["up", "down", "zigzag", "equal"])
    w.master = []
    for i in range(k):
        key = {"up": i, "down": k - i, "zigzag": (i * 3) % 4, "equal": 1}[order]
        w.master.append(LItem(M, i, key, ctx.bool("vis%d" % i) if i < 2 else i % 2 == 0))
        w.count += 1
    w.container = M.ListModel.ListModel("src", list(w.master))
    w.ref = Ref()
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")
    grouped = ctx.bool("grouped")
    if grouped:
        f.begin_change()
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["sort", "reverse", "filter", "mark"] + (["remove"] if w.master else []))
        if op == "remove":
            i = ctx.choice("at%d" % s, len(w.master))
            w.container.remove_item(i)
            del w.master[i]
        else:
            apply(ctx, M, w, f, op, str(s))
        if s == steps - 1 and grouped:
            f.end_change()
        elif grouped:
            continue
        if content:
            content_ok(ctx, f.items, w.ref, w.master, op)
        else:
            ctx.check(br.bad is None and br.depth == 0, op + ": changes bracketed and balanced")
            ctx.check(mirror.bad is None, op + ": each notification fits the list it is applied to")
            ctx.check(same_ids(mirror.list, f.items), op + ": notifications rebuild the list")


LB = "up to n items with keys ascending, descending, mixed or equal and arbitrary visibility; `steps` changes of sort key, direction, " \
     "filter or removals, singly or in one group"


@harness("C07", quick={"n": 5, "steps": 2}, thorough={"n": 6, "steps": 3}, bounds=LB)
def large_content(ctx, M, n, steps):
    large_run(ctx, M, n, True, steps)


@harness("C08", quick={"n": 5, "steps": 2}, thorough={"n": 6, "steps": 3}, bounds=LB)
def large_notifications(ctx, M, n, steps):
    large_run(ctx, M, n, False, steps)


# --------------------------------------------------------------------------- mapped

class Selected:
    """A selection over a derived list: which items (by identity) are selected must not change when
    the list changes around them."""

    def __init__(self, ctx, model, tag, n):
        self.ctx, self.model = ctx, model
        self.sel = model.make_selection()
        self.items = []
        for i in range(n):
            if ctx.bool("sel_%s%d" % (tag, i)):
                self.sel.add(i)
                self.items.append(model.items[i])

    def gone(self, item):
        self.items = [x for x in self.items if x is not item]

    def verify(self, label, **kw):
        items = self.model.items
        got = [items[i] for i in sorted(self.sel.indexes) if 0 <= i < len(items)]
        want = [x for x in items if any(x is y for y in self.items)]
        self.ctx.check(len(self.sel.indexes) == len(want) and same_ids(got, want), label + ": selection follows its items",
                       **kw)


class Mapped:
    def __init__(self, src):
        self.src = src
        self.unmapped = 0


class EqualMapped(Mapped):
    """Mapped objects that are equal to each other."""

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, EqualMapped)


def mapped_run(ctx, M, n, steps, with_filter):
    w = World(ctx, M, n)
    maps, unmaps = [], []

    kind = ctx.pick("equal", [Mapped, EqualMapped]) if not with_filter else Mapped

    def map_fn(x):
        y = kind(x)
        maps.append(y)
        return y

    def unmap_fn(y):
        y.unmapped += 1
        unmaps.append(y)

    if with_filter:
        src = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="mid")
        configure(ctx, M, src, w.ref, CONFIGS[with_filter])
        key, content = "mid", lambda: list(src.items)
    else:
        src, key, content = w.container, "src", lambda: list(w.master)
    m = M.ListModel.MappedListModel(container=src, master_items_key=key, items_key="dst", map_fn=map_fn, unmap_fn=unmap_fn)
    mirror, br = Mirror(m, "dst", m.items), Brackets(m, "dst")
    ctx.check(m.items_key == "dst", "items key")
    sel = Selected(ctx, m, "m", len(m.items)) if not with_filter else None

    def verify(label):
        items = m.items
        ctx.check(same_ids([y.src for y in items], content()), label + ": one mapped item per source item, in order")
        ctx.check(same_ids(m.dst, items), label + ": items under their key")
        ctx.check(mirror.bad is None, label + ": each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, items), label + ": notifications rebuild the list")
        ctx.check(br.depth == 0, label + ": balanced")
        ctx.check(all(y.unmapped == 0 for y in items), label + ": present items are not unmapped")
        ctx.check(all(any(y is z for z in items) or y.unmapped == 1 for y in maps), label + ": a removed item is unmapped once")
        if sel:
            sel.verify(label)

    verify("initial")
    for k in range(steps):
        ops = ["insert"] + (["remove"] if w.master else [])
        if with_filter:
            ops = w.mutations() + ["filter"]
        op = ctx.pick("op%d" % k, ops)
        before = m.items
        kept = [y for y in before]
        if with_filter:
            apply(ctx, M, w, src, op, str(k))
        else:
            w.mutate(op, str(k))
            for y in before:
                if not any(y is z for z in m.items):
                    sel.gone(y)
            same = [y for y in before if any(y is z for z in m.items)]
            ctx.check(len(same) == len(before) - (1 if op == "remove" else 0), "other items are not mapped again")
        verify(op)
    final = ctx.pick("final", ["close", "switch", "none"])
    if final == "close":
        live = m.items
        m.close()
        ctx.check(len(m.items) == 0 and len(mirror.list) == 0, "a closed list is empty, and announced so")
        ctx.check(all(y.unmapped == 1 for y in maps), "closing unmaps every item once")
        w.mutate("insert", "late")
        ctx.check(len(m.items) == 0, "a closed list no longer follows its source")
    elif final == "switch":
        others = [w.new_item("s%d" % i) for i in range(2)]
        c2 = M.ListModel.ListModel(key, list(others))
        m.container = c2
        ctx.check(same_ids([y.src for y in m.items], others), "the new container's items")
        ctx.check(mirror.bad is None and same_ids(mirror.list, m.items), "notifications rebuild the list after a switch")
        ctx.check(all(any(y is z for z in m.items) or y.unmapped == 1 for y in maps), "the old items are unmapped once")
        w.mutate("insert", "late")
        ctx.check(same_ids([y.src for y in m.items], others), "the old container is no longer followed")
        x = w.new_item("late2")
        c2.insert_item(1, x)
        ctx.check(same_ids([y.src for y in m.items], [others[0], x, others[1]]), "the new container is followed")


@harness("C09", quick=[{"n": 2, "steps": 2, "with_filter": 0}, {"n": 3, "steps": 1, "with_filter": 0},
                       {"n": 2, "steps": 1, "with_filter": 1}, {"n": 2, "steps": 1, "with_filter": 2}],
         thorough=[{"n": 2, "steps": 3, "with_filter": 0}, {"n": 3, "steps": 2, "with_filter": 0},
                   {"n": 2, "steps": 2, "with_filter": 1}, {"n": 2, "steps": 2, "with_filter": 2},
                   {"n": 2, "steps": 2, "with_filter": 4}],
         bounds="a mapped list over a list (or over a filtered/sorted list) of n items, any selection, `steps` changes "
                "at any position, then close or change of container")
def mapped(ctx, M, n, steps, with_filter):
    mapped_run(ctx, M, n, steps, with_filter)


@harness("C09", quick={"n": 2}, bounds="grouped changes of a mapped list over a grouped filtered list")
def mapped_groups(ctx, M, n):
    w = World(ctx, M, n)
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="mid")
    m = M.ListModel.MappedListModel(container=f, master_items_key="mid", items_key="dst", map_fn=lambda x: (x,))
    mirror, br = Mirror(m, "dst", m.items), Brackets(m, "dst")
    which = ctx.pick("who", ["f", "m", "mf"])
    a = f if "f" in which else m
    depth = ctx.choice("depth", 3) + 1
    tracked = []
    if "m" in which:
        for k in range(depth):
            if k % 2:
                m.begin_change()
            else:
                tracked.append(m.changes())
                tracked[-1].__enter__()
    if "f" in which:
        f.begin_change()
    for k in range(2 if depth == 1 else 1):
        w.mutate(ctx.pick("op%d" % k, w.mutations()), str(k))
    if "f" in which:
        f.end_change()
    if "m" in which:
        for k in reversed(range(depth)):
            ctx.check(br.depth == 1 and br.total == 1, "a group is announced once")
            if k % 2:
                m.end_change()
            else:
                tracked.pop().__exit__(None, None, None)
    ctx.check(br.depth == 0 and br.bad is None, "changes bracketed and balanced")
    ctx.check(br.total >= 1, "grouped changes are announced as a group")
    ctx.check(mirror.bad is None and same_ids(mirror.list, m.items), "notifications rebuild the list")
    ctx.check(same_ids([y[0] for y in m.items], w.master), "one mapped item per source item, in order")
    m.mark_changed()
    ctx.check(br.depth == 0 and br.bad is None and mirror.bad is None and same_ids(mirror.list, m.items), "marking a list as changed leaves it as it is")


# --------------------------------------------------------------------------- flattened

class Parent(Item):
    pass


def flat_run(ctx, M, n, steps, maxc):
    L = M.ListModel
    count = [0]

    class Master(L.ListModel):
        _set_order = 0

        def __hash__(self):
            return 7

        def __eq__(self, other):
            return self is other

    Item = ctx.pick("equal", [lib.Item, Twin]) if steps < 2 else lib.Item  # children may be equal to each other

    def new_master(tag, maxc):
        k = ctx.choice("c_" + tag, maxc + 1)
        kids = []
        for _ in range(k):
            kids.append(Item(count[0]))
            count[0] += 1
        return Master("kids", kids)

    masters = [new_master("m%d" % i, maxc) for i in range(n)]
    top = L.ListModel("src", list(masters))
    f = L.FlattenedListModel(container=top, master_items_key="src", child_items_key="kids", items_key="dst")
    mirror = Mirror(f, "dst", f.items)
    sel = Selected(ctx, f, "f", len(f.items))
    gone = []

    def verify(label):
        want = [c for m in masters for c in m.items]
        items = f.items
        ctx.check(same_ids(items, want), label + ": concatenation of the children in order")
        ctx.check(same_ids(f.dst, items), label + ": items under their key")
        ctx.check(mirror.bad is None, label + ": each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, items), label + ": notifications rebuild the list")
        sel.verify(label)

    verify("initial")
    for k in range(steps):
        ops = ["insert_master"]
        if masters:
            ops += ["remove_master", "insert_child"]
            if any(m.items for m in masters):
                ops.append("remove_child")
        op = ctx.pick("op%d" % k, ops)
        before = f.items
        if op == "insert_master":
            i = ctx.choice("at%d" % k, len(masters) + 1)
            m = new_master("x%d" % k, 1)
            top.insert_item(i, m)
            masters.insert(i, m)
        elif op == "remove_master":
            i = ctx.choice("at%d" % k, len(masters))
            top.remove_item(i)
            gone.append(masters.pop(i))
        elif op == "insert_child":
            m = masters[ctx.choice("at%d" % k, len(masters))]
            m.insert_item(ctx.choice("c%d" % k, len(m.items) + 1), Item(count[0]))
            count[0] += 1
        else:
            cands = [m for m in masters if m.items]
            m = cands[ctx.choice("at%d" % k, len(cands))]
            m.remove_item(ctx.choice("c%d" % k, len(m.items)))
        for y in before:
            if not any(y is z for z in f.items):
                sel.gone(y)
        verify(op)
        for g in gone:
            g.append_item(Item(count[0]))
            count[0] += 1
        if gone:
            verify("a removed container is no longer followed")
    final = ctx.pick("final", ["close", "switch", "none"])
    if final == "close":
        f.close()
        ctx.check(len(f.items) == 0 and len(mirror.list) == 0 and mirror.bad is None, "a closed list is empty")
        if masters:
            masters[0].append_item(Item(90))
            ctx.check(len(f.items) == 0, "a closed list follows nothing")
    elif final == "switch":
        others = [Master("kids", [Item(80)]), Master("kids", [])]
        c2 = L.ListModel("src", list(others))
        f.container = c2
        if masters:
            masters[0].append_item(Item(90))
        others[1].append_item(Item(81))
        ctx.check(same_ids(f.items, others[0].items + others[1].items), "only the new container is followed")
        ctx.check(mirror.bad is None and same_ids(mirror.list, f.items), "notifications rebuild the list after a switch")


@harness("C10", quick=[{"n": 2, "steps": 2, "maxc": 1}, {"n": 2, "steps": 1, "maxc": 2}],
         thorough=[{"n": 2, "steps": 2, "maxc": 2}, {"n": 3, "steps": 1, "maxc": 2}, {"n": 1, "steps": 3, "maxc": 1}],
         bounds="n containers with up to maxc children each, any selection, `steps` insertions/removals of containers "
                "or children at any position, then close or change of container")
def flattened(ctx, M, n, steps, maxc):
    flat_run(ctx, M, n, steps, maxc)


@harness("C10", quick={"n": 2}, thorough={"n": 3},
         bounds="selection over a filtered (not sorted) list, n items, one change")
def filtered_selection(ctx, M, n):
    w = World(ctx, M, n)
    f = M.ListModel.FilteredListModel(container=w.container, master_items_key="src", items_key="dst")
    if ctx.bool("filtered"):
        set_filter(M, f, w.ref, "vis")
    if ctx.bool("sorted"):
        set_sort(f, w.ref, "key")
    sel = Selected(ctx, f, "s", len(f.items))
    before, mbefore = f.items, list(w.master)
    ibefore = sorted(sel.sel.indexes)
    w.mutate(ctx.pick("op", ["insert"] + (["remove"] if w.master else [])), "0")
    for y in before:
        if not any(y is z for z in f.items):
            sel.gone(y)
    plain = w.ref.filter is None and w.ref.sort is None
    # the listed finding: renumbered with the position in the source, exactly
    if len(w.master) > len(mbefore):
        p = next(i for i, x in enumerate(w.master) if not any(x is y for y in mbefore))
        wrong = [i + 1 if i >= p else i for i in ibefore]
    else:
        p = next(i for i, x in enumerate(mbefore) if not any(x is y for y in w.master))
        wrong = [i - 1 if i > p else i for i in ibefore if i != p]
    sel.verify("filtered", known="filtered-list-selection",
               region=not plain and same_list(sorted(sel.sel.indexes), wrong))


# --------------------------------------------------------------------------- other aspects of derived lists

def derived(M, kind, container, **kw):
    L = M.ListModel
    if kind == "filtered":
        return L.FilteredListModel(container=container, master_items_key="src", items_key="dst", **kw)
    if kind == "mapped":
        return L.MappedListModel(container=container, master_items_key="src", items_key="dst", map_fn=lambda x: (x,), **kw)
    return L.FlattenedListModel(container=container, master_items_key="src", child_items_key="kids", items_key="dst", **kw)


class Kids:
    """Makes containers with children for a flattened list."""

    def __init__(self, M):
        self.M, self.count = M, 0

    def child(self):
        self.count += 1
        return Item(self.count % 8)

    def __call__(self, n):
        class Master(self.M.ListModel.ListModel):
            __hash__ = object.__hash__
        return Master("kids", [self.child() for _ in range(n)])


def selections_run(ctx, M, kind):
    kids = Kids(M)
    if kind == "flattened":
        masters = [kids(2), kids(1)]
    else:
        masters = [LItem(M, i, i, True) for i in range(3)]
    top = M.ListModel.ListModel("src", list(masters))
    given = M.Selection.IndexedSelection()
    d = derived(M, kind, None if ctx.bool("late") else top, selection=given)
    sels = [given, d.make_selection(), d.make_selection()]
    d.container = top
    release_first = ctx.bool("release_first")
    r = ctx.choice("release", 4)

    def release():
        if r < 3:
            d.release_selection(sels[r])

    if release_first:
        release()
    items = d.items
    chosen = [ctx.choice("sel%d" % i, 3) for i in range(3)]
    for s, c in zip(sels, chosen):
        s.set(c)
    if not release_first:
        release()
    if kind == "flattened":
        what = ctx.pick("what", ["insert", "remove", "insert_master", "remove_master"])
        if what == "insert":
            masters[0].insert_item(ctx.choice("at", 3), kids.child())
        elif what == "remove":
            masters[0].remove_item(ctx.choice("at", 2))
        elif what == "insert_master":
            top.insert_item(ctx.choice("at", 3), kids(1))
        else:
            top.remove_item(ctx.choice("at", 2))
    elif ctx.bool("insert"):
        top.insert_item(ctx.choice("at", 4), LItem(M, 5, 5, True))
    else:
        top.remove_item(ctx.choice("at", 3))
    new = d.items
    for i, (s, c) in enumerate(zip(sels, chosen)):
        if i == r:
            ctx.check(sorted(s.indexes) == [c], "a released selection is no longer changed")
        else:
            want = [j for j, x in enumerate(new) if x is items[c]]
            ctx.check(sorted(s.indexes) == want, "every selection that is not released follows its items")


SELB = "a derived list of three items with a selection of its own, two made from it, any of them released before or after any item was selected; then one " \
       "change at any position"


@harness("C09", quick={}, bounds=SELB)
def mapped_selections(ctx, M):
    selections_run(ctx, M, "mapped")


@harness("C10", quick={"kind": "flattened"}, bounds=SELB)
def flattened_selections(ctx, M, kind):
    selections_run(ctx, M, kind)


@harness("C10", quick={"kind": "filtered"}, bounds=SELB + " (a filtered list that shows everything in order)")
def plain_filtered_selections(ctx, M, kind):
    selections_run(ctx, M, kind)


def foreign_run(ctx, M, kind):
    """The container announces changes of another of its lists: nothing changes, nothing is announced."""
    kids = Kids(M)
    masters = [kids(1), kids(2)] if kind == "flattened" else [LItem(M, i, 3 - i, True) for i in range(2)]
    top = M.ListModel.ListModel("src", list(masters))
    source = top
    if kind != "flattened" and ctx.bool("chained"):
        source = M.ListModel.FilteredListModel(container=top, master_items_key="src", items_key="src")
    d = derived(M, kind, source)
    before = d.items
    log = []
    evs = [d.item_inserted_event, d.item_removed_event] + ([d.begin_changes_event, d.end_changes_event] if kind != "flattened" else [])
    hold = [e.listen(lambda *a: log.append(a)) for e in evs]
    sel = d.make_selection()
    sel.set(1)
    who = source
    if kind == "flattened" and ctx.bool("child"):
        who = masters[ctx.choice("which", 2)]
    what = ctx.pick("what", ["insert", "remove", "begin", "end"] if source is not top else ["insert", "remove"])
    x = kids(1) if kind == "flattened" else LItem(M, 5, 5, True)
    if what == "insert":
        who.notify_insert_item("other", x, ctx.choice("at", 2))
    elif what == "remove":
        who.notify_remove_item("other", ctx.pick("it", [x, masters[0]]), ctx.choice("at", 2))
    elif what == "begin":
        who.begin_changes_event.fire("other")
    else:
        who.end_changes_event.fire("other")
    ctx.check(same_ids(d.items, before) and not log, "changes of another list of the container do not matter")
    ctx.check(sorted(sel.indexes) == [1], "selections do not follow another list")
    if kind == "flattened":
        masters[1].insert_item(0, kids.child())
        ctx.check(same_ids(d.items, masters[0].items + masters[1].items), "the list is still followed")
    else:
        top.append_item(x)
        ctx.check(len(d.items) == 3, "the list is still followed")


FORB = "announcements of a container about another of its lists"


@harness("C07", quick={}, bounds=FORB)
def filtered_foreign(ctx, M):
    foreign_run(ctx, M, "filtered")


@harness("C08", quick={}, bounds=FORB)
def filtered_foreign_notifications(ctx, M):
    foreign_run(ctx, M, "filtered")


@harness("C09", quick={}, bounds=FORB)
def mapped_foreign(ctx, M):
    foreign_run(ctx, M, "mapped")


@harness("C10", quick={}, bounds=FORB)
def flattened_foreign(ctx, M):
    foreign_run(ctx, M, "flattened")


def long_run(ctx, M, n, content):
    """A long established list in which one item comes, goes or changes."""
    config = ctx.pick("config", [("vis", None, False), (None, "key", False), ("vis", "key", True), ("vis", "key", False)])
    order = ctx.pick("order", [1, 5])  # 5: scattered
    master = [LItem(M, i, 10 * ((i * order) % n), i % 3 != 1) for i in range(n)]
    top = M.ListModel.ListModel("src", list(master))
    ref = Ref()
    f = M.ListModel.FilteredListModel(container=top, master_items_key="src", items_key="dst")
    configure(ctx, M, f, ref, config)
    if ctx.bool("grouped"):
        group = f.changes()
    else:
        group = None
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")
    if group:
        group.__enter__()
    what = ctx.pick("what", ["insert", "remove", "change", "refilter", "nest"] if n > 12 else ["insert", "remove", "change"])
    if what == "refilter":
        configure(ctx, M, f, ref, ctx.pick("then", [("vis", "key", True), (None, None, False)]))
    elif what == "nest":
        depth = ctx.pick("depth", [2, 6, 12])
        for k in range(depth):
            f.begin_change()
        shown = f.items
        it = master[ctx.pick("at", [0, 1, n - 1])]
        it.vis = not it.vis
        it.item_changed_event.fire()
        for k in range(depth):
            ctx.check(same_ids(f.items, shown), "during a group the list does not change")
            f.end_change()
    elif what == "insert":
        it = LItem(M, n, ctx.int("key", -5, 10 * n + 5), ctx.bool("vis"))
        i = ctx.pick("at", [0, n // 2, n])
        top.insert_item(i, it)
        master.insert(i, it)
    elif what == "remove":
        i = ctx.choice("at", n)
        top.remove_item(i)
        del master[i]
    else:
        it = master[ctx.pick("at", [0, 1, n // 2, n - 1])]
        if ctx.bool("rekey"):
            it.key = ctx.int("key", -5, 10 * n + 5)
        else:
            it.vis = not it.vis
        it.item_changed_event.fire()
    if group:
        group.__exit__(None, None, None)
    if content:
        content_ok(ctx, f.items, ref, master, what)
    else:
        ctx.check(br.bad is None and br.depth == 0, what + ": changes bracketed and balanced")
        ctx.check(mirror.bad is None, what + ": each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, f.items), what + ": notifications rebuild the list")


LONGB = "an established list of n items with fixed keys and visibility in two orders and four configurations; one item with any key inserted, removed or changed"


@harness("C07", quick=[{"n": 12}, {"n": 24}], bounds=LONGB)
def long_content(ctx, M, n):
    long_run(ctx, M, n, True)


@harness("C08", quick=[{"n": 12}, {"n": 24}], bounds=LONGB)
def long_notifications(ctx, M, n):
    long_run(ctx, M, n, False)


class PlainItem(Item):
    """An item that cannot change: it has no event."""

    def __init__(self, n, key):
        super().__init__(n)
        self.key, self.vis = key, True


@harness("C07", quick={}, bounds="three items without change events, list keys by default, a group left by an exception, then a change of order or a removal; "
                                 "the settings can be read back")
def plain_filtered(ctx, M):
    items = [PlainItem(i, ctx.int("key%d" % i, 0, 9)) for i in range(3)]
    top = M.ListModel.ListModel("dst", list(items))
    f = M.ListModel.FilteredListModel(items_key="dst")
    f.container = top
    ref = Ref()
    content_ok(ctx, f.items, ref, items, "items without events")
    group = ctx.pick("group", ["no", "left", "failed", "twice"])
    op = ctx.pick("op", ["sort", "reverse", "remove", "insert"])

    def change():
        if op == "sort":
            set_sort(f, ref, "key")
        elif op == "reverse":
            set_sort(f, ref, "key")
            set_reverse(f, ref, True)
        elif op == "remove":
            i = ctx.choice("at", 3)
            top.remove_item(i)
            del items[i]
        else:
            it = PlainItem(5, ctx.int("key5", 0, 9))
            top.insert_item(1, it)
            items.insert(1, it)

    if group == "no":
        change()
    else:
        before = f.items
        try:
            with f.changes():
                if group == "twice":
                    with f.changes():
                        change()
                    ctx.check(same_ids(f.items, before), "grouped changes are not visible before the group ends")
                else:
                    change()
                if group == "failed":
                    raise KeyError()
        except KeyError:
            ctx.check(group == "failed", "only the caller's exception")
        else:
            ctx.check(group != "failed", "the caller's exception passes")
    content_ok(ctx, f.items, ref, items, "after the change")
    got = f.items
    got.clear()
    content_ok(ctx, f.items, ref, items, "the list given out is a copy")
    ctx.check(f.container is top and f.sort_reverse == ref.reverse and (f.sort_key is not None) == (ref.sort is not None), "settings read back")
    flt = M.ListModel.Filter(False)
    f.filter = flt
    ctx.check(f.filter is flt and len(f.items) == 0, "a filter can be read back")


@harness("C09", quick={"n": 9}, bounds="a mapped list over n items of which any may occur repeatedly; one inserted (also one that is already there), removed, or all "
                                       "cleared; default functions or given ones")
def mapped_repeats(ctx, M, n):
    maps = []
    default = ctx.bool("default")

    def map_fn(x):
        maps.append([x, 0])
        return maps[-1]

    def unmap_fn(y):
        y[1] += 1

    rep = ctx.pick("rep", [n, 3, 1])
    pool = [Item(i % 7) for i in range(n)]
    src = [pool[i % rep] for i in range(n)]
    top = M.ListModel.ListModel("src", list(src))
    kw = {} if default else {"map_fn": map_fn, "unmap_fn": unmap_fn}
    m = M.ListModel.MappedListModel(container=top, master_items_key="src", items_key="dst", **kw)
    mirror = Mirror(m, "dst", m.items)
    before = m.items

    def verify(label):
        ctx.check(same_ids(m.items if default else [y[0] for y in m.items], src), label + ": one mapped item per source item, in order")
        ctx.check(mirror.bad is None and same_ids(mirror.list, m.items), label + ": notifications rebuild the list")
        if not default:
            ctx.check(all(y[1] == (0 if any(y is z for z in m.items) else 1) for y in maps), label + ": exactly the removed items are unmapped, once")
            ctx.check(len(set(map(id, m.items))) == len(m.items), label + ": each source item has a mapped object of its own")

    verify("initial")
    op = ctx.pick("op", ["insert", "remove", "clear"])
    at = ctx.pick("at", [0, n // 2, n - 1])
    if op == "insert":
        x = pool[0]
        top.insert_item(at, x)
        src.insert(at, x)
        ctx.check(default or same_ids(m.items[:at] + m.items[at + 1:], before), "other items are not mapped again")
    elif op == "remove":
        top.remove_item(at)
        del src[at]
        ctx.check(default or same_ids(m.items, before[:at] + before[at + 1:]), "other items are not mapped again")
    else:
        top.clear_items()
        src = []
    verify(op)
    ctx.check(m.container is top, "container")
    m.close()
    src = []
    verify("closed")


@harness("C10", quick=[{"sizes": [3, 0, 2, 4]}, {"sizes": [18, 1, 20, 2]}, {"sizes": [1] * 12}], bounds="containers of the given sizes; one change of a container or of the container list at any position, perhaps with "
                                                      "a child that occurs already; a removed container inserted again elsewhere")
def flattened_large(ctx, M, sizes):
    kids = Kids(M)
    masters = [kids(n) for n in sizes]
    top = M.ListModel.ListModel("src", list(masters))
    keyed = ctx.bool("keyed")
    f = M.ListModel.FlattenedListModel(container=top, master_items_key="src", child_items_key="kids", **({"items_key": "dst"} if keyed else {}))
    key = "dst" if keyed else "kids"
    mirror = Mirror(f, key, f.items)

    def verify(label):
        want = [c for m in masters for c in m.items]
        ctx.check(same_ids(f.items, want) and same_ids(getattr(f, key), want), label + ": concatenation of the children in order")
        ctx.check(mirror.bad is None and same_ids(mirror.list, f.items), label + ": notifications rebuild the list")

    verify("initial")
    op = ctx.pick("op", ["child", "remove_child", "clear", "move", "insert"])
    i = ctx.choice("which", len(masters))
    m = masters[i]
    if op == "child":
        m.insert_item(ctx.choice("at", len(m.items) + 1), masters[0].items[0] if ctx.bool("repeat") else kids.child())
    elif op == "remove_child":
        if m.items:
            m.remove_item(ctx.choice("at", len(m.items)))
    elif op == "clear":
        m.clear_items()
    elif op == "move":
        top.remove_item(i)
        masters.pop(i)
        verify("removed")
        if ctx.bool("changed meanwhile"):
            m.insert_item(0, kids.child())
            verify("removed container changed")
        j = ctx.choice("to", len(masters) + 1)
        top.insert_item(j, m)
        masters.insert(j, m)
        verify("inserted again")
        m.append_item(kids.child())
    else:
        x = kids(2)
        top.insert_item(i, x)
        masters.insert(i, x)
        x.insert_item(1, kids.child())
    verify(op)
    got = f.items
    got.append(None)
    verify("the list given out is a copy")
    ctx.check(f.container is top, "container")


@harness("C10", quick={"n": 3}, bounds="n containers of 2, 0 and 1 children; a change of one of them at any position, to which a listener that was there before "
                                       "the flattened list (or listens to it) reacts by changing another container or the container list")
def flattened_nested(ctx, M, n):
    kids = Kids(M)
    masters = [kids(c) for c in (2, 0, 1)[:n]]
    top = M.ListModel.ListModel("src", list(masters))
    i, j = ctx.choice("which", n), ctx.choice("other", n)
    ctx.assume(i != j)
    m, o = masters[i], masters[j]
    reaction = ctx.pick("reaction", ["insert", "remove", "append", "new", "drop"])
    todo = [True]
    hold = []

    def react(*args):
        if not todo:
            return
        todo.pop()
        if reaction == "insert":
            o.insert_item(0, kids.child())
        elif reaction == "append":
            o.append_item(kids.child())
        elif reaction == "remove":
            if o.items:
                o.remove_item(0)
        elif reaction == "new":
            x = kids(1)
            k = ctx.choice("place", n + 1)
            top.insert_item(k, x)
            masters.insert(k, x)
        else:
            masters.remove(o)
            top.remove_item(top.items.index(o))

    before = ctx.bool("before")
    if before:
        hold += [e.listen(react) for e in (m.item_inserted_event, m.item_removed_event)]
    f = M.ListModel.FlattenedListModel(container=top, master_items_key="src", child_items_key="kids", items_key="dst")
    mirror = Mirror(f, "dst", f.items)
    if not before:
        hold += [e.listen(react) for e in (f.item_inserted_event, f.item_removed_event)]
    if m.items and ctx.bool("removal"):
        m.remove_item(ctx.choice("at", len(m.items)))
    else:
        m.insert_item(ctx.choice("at", len(m.items) + 1), kids.child())
    ctx.check(same_ids(f.items, [c for m in masters for c in m.items]), "changes made by listeners: concatenation of the children in order")
    ctx.check(mirror.bad is None and same_ids(mirror.list, f.items), "changes made by listeners: notifications rebuild the list")


# --------------------------------------------------------------------------- values of any kind

KINDS = [None, 0, "", False, (), 1, "x", (1,), 0.0, Twin(1), Twin(2)]


@harness("C09", quick={"n": 5}, thorough={"n": 8},
         bounds="a mapped list over n values of different kinds (None and other false values, numbers, texts, equal objects), mapped to values of any of those kinds; an insertion and a "
                "removal at any position")
def mapped_kinds(ctx, M, n):
    shift = ctx.choice("shift", len(KINDS))
    identity = ctx.bool("identity")
    mapped, unmapped = [], []

    def map_fn(x):
        y = x if identity else KINDS[(len(mapped) + shift) % len(KINDS)]
        mapped.append(y)
        return y
    src = [KINDS[i % len(KINDS)] for i in range(n)]
    top = M.ListModel.ListModel("src", list(src))
    m = M.ListModel.MappedListModel(container=top, master_items_key="src", items_key="dst", map_fn=map_fn, unmap_fn=unmapped.append)
    ref = list(mapped)
    mirror = Mirror(m, "dst", ref)
    ctx.check(len(mapped) == n and same_ids(m.items, ref), "each source item is mapped once")
    i = ctx.choice("insert", n + 1)
    x = KINDS[(3 * i) % len(KINDS)]
    top.insert_item(i, x)
    ctx.check(len(mapped) == n + 1, "an inserted item is mapped once")
    ref.insert(i, mapped[-1])
    ctx.check(same_ids(m.items, ref) and same_ids(m.dst, ref), "the mapped item is what the function returned, in place")
    j = ctx.choice("remove", n + 1)
    top.remove_item(j)
    ctx.check(len(mapped) == n + 1 and len(unmapped) == 1 and unmapped[0] is ref[j], "exactly the item leaving is unmapped, once")
    del ref[j]
    ctx.check(same_ids(m.items, ref), "the other items stay")
    ctx.check(mirror.bad is None and same_ids(mirror.list, ref), "notifications rebuild the list")
    m.close()
    ctx.check(len(m.items) == 0 and mirror.list == [] and mirror.bad is None, "a closed list is empty")
    ctx.check(len(mapped) == n + 1 and sorted(map(id, unmapped)) == sorted(map(id, mapped)), "closing unmaps every item once")


@harness("C10", quick={}, bounds="three containers with children of different kinds (None and other false values, numbers, texts, equal objects); a child inserted and one removed "
                                 "anywhere; then a container removed and inserted again elsewhere")
def flattened_kinds(ctx, M):
    class Master(M.ListModel.ListModel):
        __hash__ = object.__hash__
    masters = [Master("kids", KINDS[:3]), Master("kids", KINDS[3:6]), Master("kids", KINDS[6:])]
    top = M.ListModel.ListModel("src", list(masters))
    f = M.ListModel.FlattenedListModel(container=top, master_items_key="src", child_items_key="kids", items_key="dst")
    mirror = Mirror(f, "dst", f.items)

    def verify(label):
        want = [c for m in masters for c in m.items]
        ctx.check(same_ids(f.items, want), label + ": concatenation of the children in order")
        ctx.check(mirror.bad is None and same_ids(mirror.list, want), label + ": notifications rebuild the list")
    verify("initial")
    m = masters[ctx.choice("m", 3)]
    m.insert_item(ctx.choice("i", len(m.items) + 1), ctx.pick("kind", [None, 0, KINDS[9]]))
    verify("insert")
    m = masters[ctx.choice("m2", 3)]
    m.remove_item(ctx.choice("j", len(m.items)))
    verify("remove")
    i = (len(m.items) + masters.index(m)) % 3
    g = masters.pop(i)
    top.remove_item(i)
    verify("container removed")
    g.append_item(None)
    verify("a removed container is no longer followed")
    masters.insert(0, g)
    top.insert_item(0, g)
    verify("container inserted again")


class FalseItem(LItem):
    """An item that counts as false, such as an empty collection."""

    def __len__(self):
        return 0


REFB = ("three items (some false), filtered by a predicate or sorted by a key that depends on something outside the list, which changes; then the filter or key is set "
        "again, the list is marked changed, or a group of up to three levels ends, after an item was inserted or removed")


def refresh_run(ctx, M, content):
    items = [(FalseItem if i % 2 else LItem)(M, i, ctx.int("k%d" % i, 0, 9), ctx.bool("v%d" % i)) for i in range(3)]
    top = M.ListModel.ListModel("dst", list(items))
    f = M.ListModel.FilteredListModel(container=top, items_key="dst")
    flip = [False]
    flt = M.ListModel.PredicateFilter(lambda it: not_(it.vis) if flip[0] else it.vis)

    def key(it):
        return -it.key if flip[0] else it.key
    use = ctx.pick("use", ["filter", "sort"])
    if use == "filter":
        f.filter = flt
    else:
        f.sort_key = key
    mirror, br = Mirror(f, "dst", f.items), Brackets(f, "dst")
    depth = ctx.choice("depth", 4)
    before = f.items
    for _ in range(depth):
        f.begin_change()
    flip[0] = True
    if depth:
        op = ctx.pick("op", ["none", "remove", "insert"])
        if op == "remove":
            i = ctx.choice("at", 3)
            top.remove_item(i)
            del items[i]
        elif op == "insert":
            it = FalseItem(M, 4, 5, True)
            top.insert_item(1, it)
            items.insert(1, it)
    again = ctx.pick("again", [use, "mark"] + (["nothing"] if depth else []))
    if again == "filter":
        f.filter = f.filter
    elif again == "sort":
        f.sort_key = f.sort_key
    elif again == "mark":
        f.mark_changed()
    for k in range(depth):
        if content:
            ctx.check(same_ids(f.items, before), "grouped changes are not visible before the group ends")
        f.end_change()
    if content:
        got = f.items
        want = items if use == "sort" else [it for it in items if not it.vis]
        ctx.check(len(got) == len(want) and all(any(a is b for b in want) for a in got), "the filtered items")
        if use == "filter":
            ctx.check(same_ids(got, want), "container order when unsorted")
        else:
            for a, b in zip(got, got[1:]):
                ctx.check(a.key >= b.key, "sorted by the sort key")
    else:
        ctx.check(mirror.bad is None, "each notification fits the list it is applied to")
        ctx.check(same_ids(mirror.list, f.items), "notifications rebuild the list")
        ctx.check(br.depth == 0 and br.bad is None, "changes bracketed and balanced")


@harness("C07", quick={}, bounds=REFB)
def refresh_content(ctx, M):
    refresh_run(ctx, M, True)


@harness("C08", quick={}, bounds=REFB)
def refresh_notifications(ctx, M):
    refresh_run(ctx, M, False)
