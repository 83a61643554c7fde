"""C33: recorder."""
from engine.registry import harness
from .h_persistence import eqv
from .h_binding import opt_int, same
from .lib import *


def node_class(M):
    P, O = M.Persistence, M.Observable

    class Node(O.Observable, P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("node")
            self.define_property("x", changed=self._changed)
            self.define_property("l", validate=lambda v: v, changed=self._changed)
            self.define_property("q", recordable=False, changed=self._changed)
            self.define_item("it", None, self._item_changed)
            self.define_relationship("kids", None, self._inserted, self._removed)

        def _changed(self, name, value):
            self.notify_property_changed(name)

        def _item_changed(self, name, old, new):
            if new is not None:
                self.notify_set_item(name, new)
            else:
                self.notify_clear_item(name)

        def _inserted(self, name, index, item):
            self.notify_insert_item(name, item, index)

        def _removed(self, name, index, item):
            self.notify_remove_item(name, item, index)
    return Node


def state(n):
    return {"x": n.x, "it": None if n.it is None else state(n.it), "kids": [state(k) for k in n.kids]}


def members(n):
    out = [n]
    for k in ([n.it] if n.it is not None else []) + n.kids:
        out.extend(members(k))
    return out


@harness("C33", quick={"kids": 2, "steps": 2}, thorough={"kids": 2, "steps": 4},
         bounds="an object with an item or not and up to `kids` related objects, the first with a nested one; any recorded history of `steps` property changes "
                "anywhere, insertions and removals at any position below the object or below a related one, items set and cleared; then unrecorded changes; any integers")
def replay(ctx, M, kids, steps):
    Node = node_class(M)
    has_item = ctx.pick("item", [True, False])
    n_kids = ctx.choice("kids", kids + 1)

    def make():
        r = Node()
        r.x = 1
        if has_item:
            r.set_item("it", Node())
        for i in range(n_kids):
            k = Node()
            r.append_item("kids", k)
            if i == 0:
                k.append_item("kids", Node())
        return r
    source, target, second = make(), make(), make()
    recorder = M.Recorder.Recorder(source)
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["x", "q", "insert", "set", "clear"] + (["remove"] if source.kids else []))
        ms = members(source)
        if op in ("x", "q"):
            n = ms[ctx.choice("which%d" % s, len(ms))]
            setattr(n, op, opt_int(ctx, "v%d" % s) if op == "x" else ctx.int("v%d" % s))
        elif op == "insert":
            ps = [source] + source.kids + ([source.it] if source.it is not None else [])
            p = ps[ctx.choice("in%d" % s, len(ps))]
            k = Node()
            k.x = ctx.int("v%d" % s)
            p.insert_item("kids", ctx.choice("at%d" % s, len(p.kids) + 1), k)
        elif op == "remove":
            source.remove_item("kids", source.kids[ctx.choice("at%d" % s, len(source.kids))])
        elif op == "set":
            k = Node()
            k.x = ctx.int("v%d" % s)
            source.set_item("it", k)
        else:
            source.set_item("it", None)
    want = state(source)
    if ctx.pick("close", [False, True]):
        recorder.close()
        later = ctx.int("later")
        for n in members(source):
            n.x = later
        source.append_item("kids", Node())
    recorder.apply(target)
    ctx.check(eqv(state(target), want), "applying what was recorded to an equal object gives the state at the end of recording")
    ctx.check(all(n.q is None for n in members(target)), "properties that are not recordable are not changed")
    t = state(target)
    recorder.apply(second)
    ctx.check(eqv(state(second), want) and eqv(state(target), t), "what was recorded can be applied again, to another object")
    ctx.check(not {n.uuid for n in members(target)} & {n.uuid for n in members(second)} and not {n.uuid for n in members(target)} & {n.uuid for n in members(source)},
              "objects created by applying are new")


@harness("C33", quick={"kids": 2}, thorough={"kids": 3},
         bounds="container values of a property anywhere below the object, changed in place after they were recorded or applied; any integers")
def values_independent(ctx, M, kids):
    Node = node_class(M)

    def make():
        r = Node()
        r.set_item("it", Node())
        for i in range(kids):
            r.append_item("kids", Node())
        return r
    source, target, second = make(), make(), make()
    recorder = M.Recorder.Recorder(source)
    which = ctx.choice("which", kids + 2)
    v = ctx.int("v")
    value = [v, [v + 1]]
    members(source)[which].l = value
    value[1].append(5)                                  # changed in place: not recorded
    recorder.apply(target)
    ctx.check(eqv(members(target)[which].l, [v, [v + 1]]) and all(n.l is None for i, n in enumerate(members(target)) if i != which),
              "a value is applied as it was when recorded, to the object it was recorded for")
    members(target)[which].l[1].append(6)
    recorder.apply(second)
    ctx.check(eqv(members(second)[which].l, [v, [v + 1]]), "applying again gives the recorded value whatever happened to the first object")
    members(second)[which].l.append(7)
    ctx.check(eqv(members(source)[which].l, [v, [v + 1, 5]]) and eqv(members(target)[which].l, [v, [v + 1, 6]]), "the objects do not share values")


def tree_class(M):
    P, O = M.Persistence, M.Observable

    class Tree(O.Observable, P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_property("x", 0, changed=self._changed)
            for n in ("a", "b"):
                self.define_item(n, None, self._item_changed)
            for n in ("k", "m"):
                self.define_relationship(n, None, self._inserted, self._removed)

        def _changed(self, name, value):
            self.notify_property_changed(name)

        def _item_changed(self, name, old, new):
            if new is not None:
                self.notify_set_item(name, new)
            else:
                self.notify_clear_item(name)

        def _inserted(self, name, index, item):
            self.notify_insert_item(name, item, index)

        def _removed(self, name, index, item):
            self.notify_remove_item(name, item, index)

        def slots(self):
            return [self.a, self.b] + self.k + self.m
    return Tree


def grow(Tree, depth, n=3):
    t = Tree()
    if depth:
        t.set_item("a", grow(Tree, depth - 1))
        t.set_item("b", grow(Tree, depth - 1))
        for i in range(n):
            t.append_item("k", grow(Tree, depth - 1, 1))
        t.append_item("m", grow(Tree, depth - 1))
    return t


def tree_state(t):
    return [t.x] + [None if s is None else tree_state(s) for s in t.slots()]


@harness("C33", quick={"depth": 2, "kids": 3}, thorough={"depth": 3, "kids": 4},
         bounds="objects with two items and two relationships (of `kids` and one objects) at each of `depth` levels; an insertion, removal, replacement or clearing of an object "
                "(with contents) at any place of the top or second level, then a change of any object on either side or inside, any integers; recorded as a whole or as part of the object applied to")
def levels(ctx, M, depth, kids):
    Tree = tree_class(M)
    source, target = grow(Tree, depth, kids), grow(Tree, depth, kids)
    part = ctx.pick("part", [False, True])
    recorder = M.Recorder.Recorder(source.a, accessor_fn=lambda x: x.a) if part else M.Recorder.Recorder(source)
    top = source.a if part else source
    at = top if ctx.pick("top", [True, False]) else top.slots()[ctx.choice("below", 4)]
    op = ctx.pick("op", ["insert", "remove", "set", "clear"])
    rel = ctx.pick("which", ["k", "m"] if op in ("insert", "remove") else ["a", "b"])
    if op == "insert":
        at.insert_item(rel, ctx.choice("at", len(getattr(at, rel)) + 1), grow(Tree, 1))
    elif op == "remove":
        items = getattr(at, rel)
        if not items:
            return
        at.remove_item(rel, items[ctx.choice("at", len(items))])
    else:
        at.set_item(rel, grow(Tree, 1) if op == "set" else None)
    changed = [s for s in at.slots() if s is not None]
    changed += [s for t in changed for s in t.slots() if s is not None]
    n = changed[ctx.choice("changed", len(changed))] if changed else at
    n.x = ctx.int("v")
    if at is not top:
        last = top.slots()[-1]
        last.x = ctx.int("w")
    want = tree_state(source)
    recorder.apply(target)
    ctx.check(eqv(tree_state(target), want), "applying what was recorded to an equal object gives the state at the end of recording")


@harness("C33", quick={"steps": 12}, thorough={"steps": 40},
         bounds="recordings of any number up to `steps` of changes of different kinds one after the other (values of every kind, insertions, removals, items), applied to three objects; "
                "recording continues after the first")
def long_recording(ctx, M, steps):
    Node = node_class(M)

    def make():
        r = Node()
        r.set_item("it", Node())
        for i in range(2):
            r.append_item("kids", Node())
        return r
    source, targets = make(), [make() for i in range(3)]
    recorder = M.Recorder.Recorder(source)
    kinds = [5, None, 0, "", "t", False, [], [1], {}, {"a": [2]}, 1.5, ()]
    n, start = 1 + ctx.choice("n", steps), ctx.choice("start", 4)
    late = ctx.pick("late", [False, True])

    def run(k):
        op = (start + k) % 4
        if op == 0:
            source.x = kinds[k % len(kinds)]
            source.kids[-1].l = kinds[(k + 3) % len(kinds)]
        elif op == 1:
            k_ = Node()
            k_.x = kinds[k % len(kinds)]
            source.insert_item("kids", k % (len(source.kids) + 1), k_)
        elif op == 2:
            source.set_item("it", Node() if k % 3 else None)
            if source.it is not None:
                source.it.x = kinds[k % len(kinds)]
        else:
            source.kids[0].x = kinds[k % len(kinds)]
            if len(source.kids) > 1:
                source.remove_item("kids", source.kids[k % len(source.kids)])

    def full(n):
        return {"x": n.x, "l": n.l, "it": None if n.it is None else full(n.it), "kids": [full(k) for k in n.kids]}
    for k in range(n):
        run(k)
    first = full(source)
    recorder.apply(targets[0])
    ctx.check(full(targets[0]) == first, "applying what was recorded to an equal object gives the state at the end of recording")
    if late:
        run(n)
    want = full(source)
    for t in targets[1:]:
        recorder.apply(t)
        ctx.check(full(t) == want, "what was recorded can be applied again, to another object")
    ctx.check(full(targets[0]) == first and full(source) == want, "applying to one object does not change another")


@harness("C33", quick={"kids": 20}, thorough={"kids": 60},
         bounds="an object with `kids` related objects; one inserted and one removed at any of several positions, any one changed (any integer); applied; changes after closing are not recorded")
def many_kids(ctx, M, kids):
    Node = node_class(M)

    def make():
        r = Node()
        for i in range(kids):
            k = Node()
            k.x = i
            r.append_item("kids", k)
        return r
    source, target, later = make(), make(), make()
    recorder = M.Recorder.Recorder(source)
    places = [0, kids // 2, kids - 1]
    op = ctx.pick("op", ["none", "insert", "remove"])
    if op == "insert":
        source.insert_item("kids", ctx.pick("at", places), Node())
    elif op == "remove":
        source.remove_item("kids", source.kids[ctx.pick("at", places)])
    source.kids[ctx.choice("which", len(source.kids))].x = ctx.int("v")

    def values(n):
        return [k.x for k in n.kids]
    want = values(source)
    recorder.apply(target)
    ctx.check(same_values(values(target), want), "applying what was recorded to an equal object gives the state at the end of recording")
    recorder.close()
    for k in source.kids:
        k.x = -1
    recorder.apply(later)
    ctx.check(same_values(values(later), want), "changes after closing are not recorded")


def same_values(got, want):
    return len(got) == len(want) and and_([same(a, b) for a, b in zip(got, want)])
