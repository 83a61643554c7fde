"""C24-C26: persistent objects and their context."""
import copy
import gc
import uuid
import weakref

from engine.registry import harness
from .h_binding import opt_int, same
from .lib import *


class Shift:
    """A converter whose stored value differs from the value."""

    def convert(self, value):
        return value + 100 if value is not None else None

    def convert_back(self, value):
        return value - 100 if value is not None else None


class Pair:
    """A value object that reads and writes itself."""

    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def read_dict(self, d):
        self.a, self.b = d["a"], d["b"]

    def write_dict(self):
        return {"a": self.a, "b": self.b}


def node_class(P, rel_key=None, log=None, hidden=False, validate=None):
    class Node(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("node")
            self.define_property("x", key="stored-x", changed=self._note)
            self.define_property("y", 5, validate=validate)
            self.define_property("z", converter=Shift())
            self.define_property("l", copy_on_read=True)
            self.define_property("p", make=Pair)
            self.define_property("h", hidden=True)
            self.define_property("r", 9, read_only=True)
            self.define_item("it", self.make, self._item_changed, hidden)
            self.define_relationship("kids", self.make, self._inserted, self._removed, key=rel_key)
            self.define_relationship("others", self.make)
            self.contexts = 0

        @staticmethod
        def make(lookup_id):
            return Node() if lookup_id("type") == "node" else None

        def persistent_object_context_changed(self):
            self.contexts += 1

        def _note(self, name, value):
            if log is not None:
                log.append(("property", self, name, value))

        def _item_changed(self, name, old, new):
            if log is not None:
                log.append(("item", self, name, old, new))

        def _inserted(self, name, index, item):
            if log is not None:
                log.append(("insert", self, name, index, item))

        def _removed(self, name, index, item):
            if log is not None:
                log.append(("remove", self, name, index, item))
    return Node


def state(n):
    """The whole state of a node, by the public accessors."""
    p = n.p
    return {"x": n.x, "y": n.y, "z": n.z, "l": n.l, "p": None if p is None else [p.a, p.b], "h": n._get_persistent_property_value("h"), "r": n.r,
            "it": None if n.get_item("it") is None else state(n.get_item("it")),
            "kids": [state(k) for k in n.kids], "others": [state(k) for k in n.others]}


def all_ids(n):
    out = [n.uuid]
    for k in ([n.get_item("it")] if n.get_item("it") is not None else []) + n.kids + n.others:
        out.extend(all_ids(k))
    return out


def eqv(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(sorted(a)) == list(sorted(b)) and and_([eqv(a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and and_([eqv(p, q) for p, q in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
    return eq(a, b)


def fill(ctx, n, node, rich):
    node.x = opt_int(ctx, n + "x")
    node.y = ctx.int(n + "y")
    if rich:
        node.z = opt_int(ctx, n + "z")
        node.l = [ctx.int(n + "l"), [ctx.int(n + "ll")]] if ctx.pick(n + "has l", [True, False]) else None
        node.p = Pair(ctx.int(n + "pa"), ctx.int(n + "pb")) if ctx.pick(n + "has p", [True, False]) else None
        node._set_persistent_property_value("h", ctx.int(n + "h"))
    return node


def build(ctx, Node, kids, others, nested):
    root = fill(ctx, "root.", Node(), True)
    if ctx.pick("item", [True, False]):
        root.set_item("it", fill(ctx, "it.", Node(), False))
    for i in range(ctx.choice("kids", kids + 1)):
        k = fill(ctx, "k%d." % i, Node(), False)
        root.append_item("kids", k)
        if i == 0 and nested:
            k.append_item("kids", fill(ctx, "kk.", Node(), False))
    root.extend_items("others", [fill(ctx, "o%d." % i, Node(), False) for i in range(ctx.choice("others", others + 1))])
    return root


def expected_dict(n, rel_key):
    d = {"type": "node", "uuid": str(n.uuid)}

    def put(key, v):
        if v is not None:
            d[key] = v
    put("stored-x", n.x)
    put("y", n.y)
    put("z", None if n.z is None else n.z + 100)
    put("l", n.l)
    put("p", None if n.p is None else {"a": n.p.a, "b": n.p.b})
    put("h", n._get_persistent_property_value("h"))
    put("r", n.r)
    it = n.get_item("it")
    if it is not None:
        d["it"] = expected_dict(it, rel_key)
    d[rel_key or "kids"] = [expected_dict(k, rel_key) for k in n.kids]
    d["others"] = [expected_dict(k, rel_key) for k in n.others]
    return d


@harness("C24", quick={"kids": 2, "others": 1}, thorough={"kids": 2, "others": 2},
         bounds="an object with plain, keyed, converted, copied, self-writing, hidden and read-only properties, an item, two relationships (up to "
                "`kids` and `others` objects, the first with a nested one), all integers or None")
def roundtrip(ctx, M, kids, others):
    P = M.Persistence
    rel_key = ctx.pick("relationship key", [None, "stored-kids"])
    log = []
    Node = node_class(P, rel_key, log)
    root = build(ctx, Node, kids, others, True)
    want = state(root)
    d = root.write_to_dict()
    ctx.check(eqv(d, expected_dict(root, rel_key)), "an object is written with its type, id, and every value, item and relationship under its key")
    other = Node()
    if d.get("l"):
        d["l"][1][0] = d["l"][1][0] + 1
        ctx.check(eqv(state(root), want), "a written dictionary is independent of the object")
        d["l"][1][0] = d["l"][1][0] - 1
    del log[:]
    other.begin_reading()
    other.read_from_dict(d)
    other.finish_reading()
    ctx.check(eqv(state(other), want), "an object read from what another wrote has the same state")
    ctx.check(all_ids(other) == all_ids(root), "objects keep their ids")
    ctx.check(eqv(other.write_to_dict(), d), "writing again gives the same dictionary")

    def quiet(n):
        return not n._is_reading and all(quiet(k) and k.persistent_object_parent.parent is n for k in n.kids + n.others + ([n.get_item("it")] if n.get_item("it") else []))
    ctx.check(quiet(other), "everything read knows its parent and that reading is finished")
    ins = [e for e in log if e[0] == "insert" and e[1] is other]
    ctx.check([e[3] for e in ins] == list(range(len(other.kids))) and same_ids([e[4] for e in ins], other.kids), "reading announces every related object in order")
    news = [e for e in log if e[0] == "item" and e[1] is other]
    it = other.get_item("it")
    ctx.check(len(news) == (it is not None) and all(e[2] == "it" and e[3] is None and e[4] is it for e in news), "reading announces the item")
    xs = [e for e in log if e[0] == "property" and e[1] is other]
    ctx.check(len(xs) == ("stored-x" in d) and all(e[2] == "x" and same(e[3], other.x) for e in xs), "reading announces a property that has a value")
    ctx.check(not any(e[0] == "remove" for e in log), "reading removes nothing")
    if d.get("l"):
        d["l"][1][0] = d["l"][1][0] + 1
        ctx.check(eqv(state(other), want), "an object read is independent of the dictionary")


@harness("C24", quick={"kids": 2, "others": 1}, thorough={"kids": 2, "others": 2}, bounds="as roundtrip")
def deep_copies(ctx, M, kids, others):
    P = M.Persistence
    Node = node_class(P, None, None, hidden=ctx.pick("hidden item", [False, True]))
    root = build(ctx, Node, kids, others, True)
    want = state(root)
    c = copy.deepcopy(root)
    ctx.check(eqv(state(c), want), "a deep copy has the same state")
    a, b = all_ids(root), all_ids(c)
    ctx.check(len(a) == len(b) and not set(a) & set(b), "a deep copy has its own ids")
    c.x = 1 if c.x is None else c.x + 1
    if c.kids:
        c.kids[0].y = c.kids[0].y + 1
        c.remove_item("kids", c.kids[0])
    it = c.get_item("it")
    if it is not None:
        it.y = it.y + 1
    c.set_item("it", None)
    if c.p is not None:
        c.p.a = c.p.a + 1
    ctx.check(eqv(state(root), want), "changing a deep copy does not change the original")


@harness("C24", quick={"steps": 3}, thorough={"steps": 4},
         bounds="`steps` assignments to any property, any integers or None, with and without validator")
def values(ctx, M, steps):
    P = M.Persistence
    log = []
    valid = ctx.pick("validate", [None, "clamp"])
    Node = node_class(P, None, log, validate=(lambda v: v if v > 0 else 0) if valid else None)
    n = Node()
    want = state(n)
    ctx.check(eqv(want, {"x": None, "y": 5, "z": None, "l": None, "p": None, "h": None, "r": 9, "it": None, "kids": [], "others": []}), "properties start with their defaults")
    for k in range(steps):
        op = ctx.pick("op%d" % k, ["x", "y", "z", "l", "h", "r", "plain"])
        v = ctx.int("v%d" % k) if op == "y" else opt_int(ctx, "v%d" % k)
        count = n.modified_count
        del log[:]
        if op == "l":
            l = [v, [1]]
            n.l = l
            l[1].append(2)
            got = n.l
            got.append(7)
            got[1].append(3)
            want["l"] = [v, [1]]
        elif op == "h":
            n._set_persistent_property_value("h", v)
            want["h"] = v
            ctx.check(not hasattr(n, "h"), "a hidden property is not an attribute")
        elif op == "r":
            try:
                n.r = v
                ctx.fail("a read-only property cannot be assigned")
            except AttributeError:
                pass
        elif op == "plain":
            n.unrelated = v
            ctx.check(same(n.unrelated, v), "other attributes are unaffected")
        else:
            setattr(n, op, v)
            want[op] = ite(v > 0, v, 0) if op == "y" and valid else v
        ctx.check(eqv(state(n), want), "a property has the (validated) value assigned and no other property changes")
        ctx.check(n.modified_count == count + (0 if op in ("r", "plain") else 1), "each assignment counts as one modification")
        if op == "x":
            ctx.check(len(log) == 1 and log[0][:3] == ("property", n, "x") and same(log[0][3], v), "the property's change function is called once with the new value")
        else:
            ctx.check(not log, "no change function is called for another property")
    ctx.check(n._is_persistent_property_recordable("x") and not n._is_persistent_property_recordable("r") and not n._is_persistent_property_recordable("nope"),
              "only assignable properties are recordable")


class Storage:
    """Keeps a dictionary in step with the calls it receives."""

    def __init__(self, root):
        self.properties = root.write_to_dict()
        self.calls = 0

    def _dict(self, object):
        parent = object.persistent_object_parent
        return object.get_accessor_in_parent()(self._dict(parent.parent)) if parent else self.properties

    def get_properties(self, object):
        return self._dict(object)

    def insert_item(self, parent, name, before_index, item):
        self.calls += 1
        self._dict(parent).setdefault(name, list()).insert(before_index, item.write_to_dict())
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, item_index, item):
        self.calls += 1
        del self._dict(parent)[name][item_index]
        item.persistent_object_context = None

    def set_item(self, parent, name, item):
        self.calls += 1
        d = self._dict(parent)
        if item is not None:
            d[name] = item.write_to_dict()
            item.persistent_object_context = parent.persistent_object_context
        else:
            d.pop(name, None)

    def set_property(self, object, name, value):
        self.calls += 1
        self._dict(object)[name] = value

    def clear_property(self, object, name):
        self.calls += 1
        self._dict(object).pop(name, None)


def family(n):
    out = [n]
    for k in ([n.get_item("it")] if n.get_item("it") is not None else []) + n.kids + n.others:
        out.extend(family(k))
    return out


def plain_classes(P, rel_key=None):
    """Objects with properties of every kind of plain value, with and without contents."""
    class Leaf(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("leaf")
            self.define_property("x", 3)

    class Owner(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_property("s", "some")
            self.define_property("d", {"k": [1]})
            self.define_property("w", 4, reader=self._read, writer=self._write)
            self.define_item("it", self.make)
            self.define_relationship("kids", self.make, key=rel_key)

        @staticmethod
        def _read(p, d):
            return d["w1"] * 10 + d["w2"] if "w1" in d else None

        @staticmethod
        def _write(p, d, v):
            if v is not None:
                d["w1"], d["w2"] = v // 10, v % 10

        @staticmethod
        def make(lookup_id):
            return Leaf() if lookup_id("type") == "leaf" else Owner()
    return Leaf, Owner


def plain_state(o):
    if not o.relationship_names:
        return {"x": o.x}
    return {"s": o.s, "d": o.d, "w": o.w, "it": None if o.it is None else plain_state(o.it), "kids": [plain_state(k) for k in o.kids]}


@harness("C24", quick={"kids": 4}, thorough={"kids": 6},
         bounds="objects with text, container and specially written properties containing a simple or a composite item and up to `kids` simple or composite objects "
                "in order; falsy, empty and missing values; then written and read, or copied, and changed in place")
def plain_values(ctx, M, kids):
    P = M.Persistence
    Leaf, Owner = plain_classes(P)
    n = ctx.choice("kids", kids + 1)
    o = Owner()
    o.s = ctx.pick("s", ["", "t"])
    o.w = ctx.int("w")
    kind = ctx.pick("d", ["full", "empty", "list", "empty list", "zero", "false", "none", "default"])
    if kind != "default":
        o.d = {"full": {"k": [ctx.int("dv")]}, "empty": {}, "list": [[3]], "empty list": [], "zero": 0, "false": False, "none": None}[kind]
    item = ctx.pick("item", [None, Leaf, Owner])
    if item:
        o.set_item("it", item())
        (o.it if item is Leaf else o).x = 1
    for i in range(n):
        k = Leaf() if i != 1 else Owner()
        if i != 1:
            k.x = ctx.int("x%d" % i)
        o.append_item("kids", k)
    ids = [o.uuid, o.it.uuid if item else None] + [k.uuid for k in o.kids]
    want = copy.deepcopy(plain_state(o))

    def scramble(d):
        if kind in ("full", "default"):
            d["k"].append(7)
        elif kind == "empty":
            d["k"] = 1
        elif kind == "list":
            d[0].append(7)
        elif kind == "empty list":
            d.append(7)
    if ctx.pick("how", ["read", "copy"]) == "copy":
        clear = ctx.pick("clear", [False, True])
        if clear:                       # missing values are copied as well
            o.s = want["s"] = None
        c = copy.deepcopy(o)
        ctx.check(eqv(plain_state(c), want), "a deep copy has the same state")
        scramble(c.d)
        ctx.check(eqv(plain_state(o), want), "changing a value of a deep copy in place does not change the original")
        scramble(o.d)
        ctx.check(c.uuid != ids[0] and (not item or c.it.uuid != ids[1]) and not {k.uuid for k in c.kids} & set(ids), "a deep copy has its own ids")
        return
    d = o.write_to_dict()
    saved = copy.deepcopy(d)
    ctx.check(("d" in d) == (kind != "none"), "exactly properties with a value are written")
    if kind == "none":
        return                          # (a missing value of a property with a default: see DESIGN.md)
    scramble(d.get("d"))
    ctx.check(eqv(plain_state(o), want), "a written dictionary is independent of the object")
    d = copy.deepcopy(saved)
    r = Owner()
    if ctx.pick("used", [False, True]):     # reading replaces values the object had
        r.s, r.d, r.w = "other", [5], 77
    r.begin_reading()
    r.read_from_dict(d)
    r.finish_reading()
    ctx.check(eqv(plain_state(r), want), "an object read from what another wrote has the same state")
    ctx.check([r.uuid, r.it.uuid if r.it else None] + [k.uuid for k in r.kids] == ids, "objects keep their ids at every level")
    ctx.check(eqv(r.write_to_dict(), saved), "writing again gives the same dictionary")
    scramble(d.get("d"))
    ctx.check(eqv(plain_state(r), want), "an object read is independent of the dictionary")
    scramble(r.d)
    ctx.check(eqv(plain_state(o), want), "an object read is independent of the one that wrote")


@harness("C24", quick=[{"kids": 5}, {"kids": 20}], thorough=[{"kids": 12}, {"kids": 60}],
         bounds="an object with `kids` related objects; the list of them, of the names of its properties, items and relationships, kept while the object changes, and changed by the caller")
def listings(ctx, M, kids):
    P = M.Persistence
    Leaf, Owner = plain_classes(P)
    o = Owner()
    made = [Leaf() if i % 2 else Owner() for i in range(kids)]
    o.extend_items("kids", made)
    op = ctx.pick("op", ["keep", "remove all", "remove", "insert", "change"])
    listed = o.kids
    names = [("s", "d", "w"), ("it",), ("kids",), ("s", "d", "w")]
    ctx.check(same_ids(listed, made), "an object lists its related objects in order")
    if op == "remove all":
        seen = []
        for k in o.kids:                    # (while iterating)
            seen.append(k)
            o.remove_item("kids", k)
        ctx.check(same_ids(seen, made) and o.kids == [] and o.item_count("kids") == 0, "all related objects can be removed one after the other")
    elif op == "remove":
        i = ctx.choice("at", kids)
        o.remove_item("kids", made[i])
        ctx.check(same_ids(o.kids, made[:i] + made[i + 1:]), "an object lists its related objects in order")
    elif op == "insert":
        k, i = Leaf(), ctx.choice("at", kids + 1)
        o.insert_item("kids", i, k)
        ctx.check(same_ids(o.kids, made[:i] + [k] + made[i:]), "an object lists its related objects in order")
    elif op == "change":
        listed.pop(ctx.choice("at", kids))
        listed.append(None)
        for got in (o.property_names, o.item_names, o.relationship_names, o.key_names):
            got.append("more")
        ctx.check(same_ids(o.kids, made) and o.item_count("kids") == kids, "the list given to a caller is the caller's")
    if op != "change":
        ctx.check(same_ids(listed, made), "the list given to a caller does not change")
    ctx.check([tuple(x) for x in (o.property_names, o.item_names, o.relationship_names, o.key_names)] == names, "an object lists the names it defined")
    written = o.write_to_dict()
    ctx.check([d["uuid"] for d in written["kids"]] == [str(k.uuid) for k in o.kids], "exactly the related objects are written, in order")
    r = Owner()
    r.begin_reading()
    r.read_from_dict(written)
    r.finish_reading()
    ctx.check([k.uuid for k in r.kids] == [k.uuid for k in o.kids] and [type(k) for k in r.kids] == [type(k) for k in o.kids], "exactly the related objects are read, in order")
    c = copy.deepcopy(o)
    ctx.check([type(k) for k in c.kids] == [type(k) for k in o.kids] and len({k.uuid for k in c.kids} | {k.uuid for k in o.kids}) == 2 * len(o.kids), "a copy has related objects of its own, in order")
    gone = ctx.pick("undefine", ["properties", "items", "relationships"])
    getattr(o, "undefine_" + gone)()
    now = dict(properties=o.property_names, items=o.item_names, relationships=o.relationship_names)
    ctx.check(all((v == []) == (k == gone) for k, v in now.items()), "exactly the names undefined are gone")
    again = o.write_to_dict()
    left = {k: v for k, v in written.items() if k not in {"properties": ("s", "d", "w1", "w2"), "items": ("it",), "relationships": ("kids",)}[gone]}
    ctx.check(set(again) == set(left) and all(again[k] == left[k] for k in left if k in ("kids", "it")), "what is undefined is not written, the rest is")


@harness("C25", quick={"kids": 4, "steps": 3}, thorough={"kids": 5, "steps": 3},
         bounds="an object with `kids` simple related objects (stored by the name or another key), any history of `steps` property changes, insertions, removals and moves at any position")
def related_order(ctx, M, kids, steps):
    P = M.Persistence
    Leaf, Owner = plain_classes(P, ctx.pick("relationship key", [None, "stored-kids"]))
    root = Owner()
    root.extend_items("kids", [Leaf() for i in range(kids)])
    st = Storage(root)
    context = P.PersistentObjectContext()
    context._set_persistent_storage_for_object(root, st)
    root.persistent_object_context = context
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["change", "insert", "remove", "move", "extend"])
        want = root.kids
        i = ctx.choice("at%d" % s, len(want) + (op == "insert")) if op != "extend" else 0
        if op == "change":
            want[i].x = ctx.int("v%d" % s)
        elif op == "insert":
            k = Leaf()
            root.insert_item("kids", i, k)
            want.insert(i, k)
        elif op == "extend":
            more = [Leaf(), Owner()]
            root.extend_items("kids", more)
            want += more
        else:
            k = want.pop(i)
            root.remove_item("kids", k)
            if op == "move":
                want.append(k)
                root.append_item("kids", k)
        ctx.check(same_ids(root.kids, want) and all(root.item_index("kids", k) == j for j, k in enumerate(want)) and root.item_count("kids") == len(want), "related objects are in order")
        ctx.check(eqv(st.properties, root.write_to_dict()), "the storage always equals what the object would write")
        ctx.check(all(eqv(context.get_properties(k), k.write_to_dict()) for k in want), "the stored properties of a related object are found")


@harness("C25", quick={"kids": 20}, thorough={"kids": 60},
         bounds="an object with `kids` related objects; any one removed or changed, or one inserted anywhere; then the object leaves its context; any integers")
def many_related(ctx, M, kids):
    P = M.Persistence
    Leaf, Owner = plain_classes(P)
    root = Owner()
    root.extend_items("kids", [Leaf() for i in range(kids)])
    st = Storage(root)
    context = P.PersistentObjectContext()
    context._set_persistent_storage_for_object(root, st)
    root.persistent_object_context = context
    all_ = root.kids
    ctx.check(all(context.get_registered_object(k.uuid) is k and k.persistent_object_context is context for k in all_), "exactly the objects contained are registered")
    op, i = ctx.pick("op", ["remove", "insert", "change"]), ctx.choice("at", kids)
    before = root.modified_count
    if op == "remove":
        root.remove_item("kids", all_[i])
        ctx.check(context.get_registered_object(all_[i].uuid) is None and all_[i].persistent_object_parent is None, "a removed object has no parent or context")
    elif op == "insert":
        k = Leaf()
        root.insert_item("kids", i, k)
        ctx.check(context.get_registered_object(k.uuid) is k, "exactly the objects contained are registered")
    else:
        all_[i].x = ctx.int("v")
    ctx.check(root.modified_count == before + 1, "a change counts once")
    ctx.check(eqv(st.properties, root.write_to_dict()), "the storage always equals what the object would write")
    saved = root.write_to_dict()
    root.persistent_object_context = None
    ctx.check(all(context.get_registered_object(k.uuid) is None and k.persistent_object_context is None for k in root.kids + [root]), "after leaving, nothing is registered")
    for k in root.kids:
        k.x = 77
    ctx.check(eqv(st.properties, saved), "after an object left its context, nothing below it affects the storage")


@harness("C25", quick={"steps": 2}, thorough={"steps": 3},
         bounds="an object, its item or a related object, any history of `steps` assignments to plain, keyed, converted, copied, self-writing, hidden, specially written "
                "and container properties, any integers, falsy values or None")
def property_kinds(ctx, M, steps):
    P = M.Persistence
    which = ctx.pick("class", ["node", "plain"])
    if which == "node":
        Cls = node_class(P, None)
    else:
        Leaf, Cls = plain_classes(P)
    root = Cls()
    root.set_item("it", Cls())
    root.extend_items("kids", [Cls() for i in range(2)])
    st = Storage(root)
    context = P.PersistentObjectContext()
    context._set_persistent_storage_for_object(root, st)
    root.persistent_object_context = context
    n = ctx.pick("at", [root, root.it, root.kids[1]])
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["x", "y", "z", "l", "p", "h", "r"] if which == "node" else ["s", "d", "w"])
        if op in ("x", "z", "h", "r"):
            v = opt_int(ctx, "v%d" % s)
        elif op in ("y", "w"):
            v = ctx.int("v%d" % s)
        elif op == "p":
            v = Pair(ctx.int("v%d" % s), 1) if ctx.pick("some%d" % s, [True, False]) else None
        elif op == "s":
            v = ctx.pick("v%d" % s, ["t", "", None])
        else:
            v = {"list": [1, [ctx.int("v%d" % s)]], "empty": [], "none": None}[ctx.pick("kind%d" % s, ["list", "empty", "none"])]
        if op in ("h", "r"):
            n._set_persistent_property_value(op, v)
        else:
            setattr(n, op, v)
        ctx.check(eqv(st.properties, root.write_to_dict()), "the storage always equals what the object would write")
        if isinstance(v, list) and v:
            before = copy.deepcopy(st.properties)
            v[1].append(5)
            ctx.check(eqv(st.properties, before), "the storage is independent of the values assigned")
            if op == "d":
                n.d[1].append(6)
                ctx.check(eqv(st.properties, before), "the storage is independent of the values of the object")
                n.d[1].pop()
    if ctx.pick("custom", [False, True]):
        v = ctx.int("custom value")
        count, above = n.modified_count, root.modified_count
        n._update_persistent_property("custom", v)
        d = st._dict(n)
        ctx.check(eqv(d.get("custom"), v), "a custom property is stored")
        ctx.check(n.modified_count == count + 1 and root.modified_count == above + 1, "a custom property counts as a modification")


@harness("C25", quick=[{"kids": 1, "steps": 2}, {"kids": 2, "steps": 1}], thorough=[{"kids": 2, "steps": 2}, {"kids": 1, "steps": 3}],
         bounds="an object with an item and up to `kids` related objects (the first with a nested one), any history of `steps` property changes at any level, "
                "setting, replacing and clearing the item, insertions and removals at any position, changes of removed objects, putting them back, leaving the context; "
                "the storage handler applies every call to a dictionary, as the interface describes")
def storage(ctx, M, kids, steps):
    P = M.Persistence
    log = []
    Node = node_class(P, None, log)
    root = Node()
    root.x = opt_int(ctx, "rx")
    if ctx.pick("item", [True, False]):
        root.set_item("it", Node())
    for i in range(ctx.choice("kids", kids + 1)):
        k = Node()
        root.append_item("kids", k)
        if i == 0:
            k.append_item("kids", Node())
    st = Storage(root)
    context = P.PersistentObjectContext()
    context._set_persistent_storage_for_object(root, st)
    root.persistent_object_context = context
    gone = []
    left = False
    for s in range(steps):
        members = family(root)
        counts = {id(n): n.modified_count for n in members + gone}
        calls = st.calls
        before = copy.deepcopy(st.properties)
        del log[:]
        ops = ["change", "z", "insert", "set", "clear"] + (["remove"] if root.kids else []) + (["gone", "back"] if gone else []) + (["leave"] if not left else [])
        op = ctx.pick("op%d" % s, ops)
        touched = []
        events = []
        if op in ("change", "z"):
            n = members[ctx.choice("which%d" % s, len(members))]
            v = opt_int(ctx, "v%d" % s)
            setattr(n, "x" if op == "change" else "z", v)
            touched = [n]
            events = [("property", n, "x", v)] if op == "change" else []
        elif op == "insert":
            parents = [root] + root.kids
            parent = parents[ctx.choice("in%d" % s, len(parents))]
            i = ctx.choice("at%d" % s, len(parent.kids) + 1)
            n = Node()
            n.y = ctx.int("v%d" % s)
            want = parent.kids
            want.insert(i, n)
            parent.insert_item("kids", i, n)
            ctx.check(same_ids(parent.kids, want) and parent.item_count("kids") == len(want) and parent.item_index("kids", n) == i, "an object is inserted at its index")
            touched = [parent]
            events = [("insert", parent, "kids", i, n)]
        elif op == "remove":
            i = ctx.choice("at%d" % s, len(root.kids))
            n = root.kids[i]
            want = root.kids
            del want[i]
            root.remove_item("kids", n)
            ctx.check(same_ids(root.kids, want), "exactly the given object is removed")
            gone.append(n)
            touched = [root]
            events = [("remove", root, "kids", i, n)]
        elif op in ("set", "clear"):
            old = root.it
            n = Node() if op == "set" else None
            root.set_item("it", n)
            ctx.check(root.it is n, "an item is the one set")
            if old is not None:
                gone.append(old)
            touched = [root]
            events = [("item", root, "it", old, n)]
        elif op == "gone":
            gone[-1].x = ctx.int("v%d" % s)
            ctx.check(st.calls == calls and eqv(st.properties, before), "a removed or replaced object no longer changes the storage")
            touched = [gone[-1]]
            events = [("property", gone[-1], "x", gone[-1].x)]
        elif op == "back":
            n = gone.pop()
            counts[id(n)] = n.modified_count
            if ctx.pick("as%d" % s, ["item", "kid"]) == "item":
                old = root.it
                root.set_item("it", n)
                ctx.check(root.it is n, "an item is the one set")
                if old is not None:
                    gone.append(old)
                events = [("item", root, "it", old, n)]
            else:
                root.insert_item("kids", 0, n)
                ctx.check(root.kids[0] is n, "an object is inserted at its index")
                events = [("insert", root, "kids", 0, n)]
            touched = [root]
        else:
            root.persistent_object_context = None
            left = True
        if not left:
            ctx.check(eqv(st.properties, root.write_to_dict()), "the storage always equals what the object would write")
            ctx.check(eqv(context.get_properties(root), root.write_to_dict()), "the context returns the stored properties")
        elif op != "leave":
            ctx.check(st.calls == calls and eqv(st.properties, before), "an object that left its context no longer changes the storage")
        up = set()
        for n in touched:
            while n is not None:
                up.add(id(n))
                n = n.persistent_object_parent.parent if n.persistent_object_parent else None
        ctx.check(all(n.modified_count == counts[id(n)] + (1 if id(n) in up else 0) for n in members + gone if id(n) in counts),
                  "a change counts once as a modification of the object and each of its ancestors, and of no other object")
        ctx.check(len(log) == len(events) and all(len(a) == len(b) and all((p is q) if not isinstance(q, (int, str)) and hasattr(q, "uuid") else same(p, q) if not isinstance(q, str) else p == q
                  for p, q in zip(a, b)) for a, b in zip(log, events)), "each change is announced once, with its name, index and objects")
        ctx.check(all((n.persistent_object_context is (None if left else context)) and (context.get_registered_object(n.uuid) is (None if left else n)) for n in family(root)),
                  "exactly the objects below an object in a context are in that context")
        ctx.check(all(n.persistent_object_context is None and context.get_registered_object(n.uuid) is None and n.persistent_object_parent is None for n in gone),
                  "a removed or replaced object is no longer in the context and has no parent")


SLOTS = ["a", "b", "k0", "k1", "m0"]


def tree_class(P):
    class Tree(P.PersistentObject):
        def __init__(self):
            super().__init__()
            self.define_type("tree")
            self.define_property("x", 0)
            self.define_property("x2", "text")
            self.define_item("a", lambda lookup: Tree())
            self.define_item("b", lambda lookup: Tree())
            self.define_relationship("k", lambda lookup: Tree())
            self.define_relationship("m", lambda lookup: Tree(), key="stored-m")

        def slots(self):
            return [self.a, self.b] + self.k + self.m
    return Tree


def grow(Tree, depth, value, path=""):
    t = Tree()
    t.x = value(path)
    if depth:
        t.set_item("a", grow(Tree, depth - 1, value, path + "a"))
        t.set_item("b", grow(Tree, depth - 1, value, path + "b"))
        t.append_item("k", grow(Tree, depth - 1, value, path + "k"))
        t.append_item("k", grow(Tree, depth - 1, value, path + "l"))
        t.append_item("m", grow(Tree, depth - 1, value, path + "m"))
    return t


def tree_state(t):
    return [t.x, t.x2] + [None if s is None else tree_state(s) for s in t.slots()]


def tree_ids(t):
    return [t.uuid] + [u for s in t.slots() if s is not None for u in tree_ids(s)]


@harness("C24", quick={"depth": 3}, thorough={"depth": 4},
         bounds="objects with two items and two relationships (of two and one objects) at each of `depth` levels, any integer in each; a modification time")
def levels_roundtrip(ctx, M, depth):
    P = M.Persistence
    Tree = tree_class(P)
    t = grow(Tree, depth, lambda path: ctx.int("x" + path))
    want, ids = tree_state(t), tree_ids(t)
    ctx.check(t.property_names == ["x", "x2"] and t.key_names == ["x", "x2"] and t.item_names == ["a", "b"] and t.relationship_names == ["k", "m"] and t.type == "tree",
              "the parts of an object can be looked up")
    if ctx.pick("how", ["read", "copy"]) == "read":
        d = t.write_to_dict()
        d["modified"] = "2015-02-03T04:05:06.000007"
        r = Tree()
        r.begin_reading()
        r.read_from_dict(copy.deepcopy(d))
        r.finish_reading()
        ctx.check(eqv(tree_state(r), want) and tree_ids(r) == ids, "an object read from what another wrote has the same state at every level")
        ctx.check(str(r.modified) == "2015-02-03 04:05:06.000007", "the modification time is read")
        del d["modified"]
        ctx.check(eqv(r.write_to_dict(), d), "writing again gives the same dictionary")
        return
    c = copy.deepcopy(t)
    ctx.check(eqv(tree_state(c), want) and len(set(ids) | set(tree_ids(c))) == 2 * len(ids), "a deep copy has the same state and ids of its own at every level")
    n = c
    for level in range(depth):
        n = n.slots()[ctx.choice("slot%d" % level, 5)]
    n.x = n.x + 1
    ctx.check(eqv(tree_state(t), want), "changing a deep copy does not change the original")


@harness("C24", quick={}, bounds="two items and two relationships, each with its own factory, which chooses one of two classes by what the dictionary says; each slot filled or "
                                 "not, objects of either class, any integers; read, or copied")
def factories(ctx, M):
    P = M.Persistence
    asked = []

    def leaf(name):
        class Leaf(P.PersistentObject):
            def __init__(self):
                super().__init__()
                self.define_type(name)
                self.define_property("v", key="value-" + name)
                self.define_property("only-" + name, 1)
        return Leaf
    classes = {n: leaf(n) for n in ("A", "B")}

    class Top(P.PersistentObject):
        def __init__(self):
            super().__init__()
            for slot in ("i", "j"):
                self.define_item(slot, self.factory(slot))
            for slot in ("m", "n"):
                self.define_relationship(slot, self.factory(slot), key={"m": "stored-m"}.get(slot))

        @staticmethod
        def factory(slot):
            def make(lookup_id):
                asked.append((slot, lookup_id("type"), lookup_id("uuid"), lookup_id("nothing"), lookup_id("nothing", 3)))
                o = classes[lookup_id("type")]()
                o.made_for = slot
                return o
            return make

    def some(slot, k=0):
        n = ctx.pick("%s%d" % (slot, k), [None, "A", "B"])
        if n is None:
            return None
        o = classes[n]()
        o.v = ctx.int("v%s%d" % (slot, k))
        return o
    t = Top()
    want = []
    for slot in ("i", "j"):
        o = some(slot)
        if o is not None:
            t.set_item(slot, o)
            want.append((slot, o))
    for slot in ("m", "n"):
        for k in range(2 if slot == "m" else 1):
            o = some(slot, k)
            if o is not None:
                t.append_item(slot, o)
                want.append((slot, o))

    def parts(x):
        return [(s, x.get_item(s)) for s in ("i", "j") if x.get_item(s) is not None] + [(s, o) for s in ("m", "n") for o in getattr(x, s)]
    if ctx.pick("how", ["read", "copy"]) == "copy":
        c = copy.deepcopy(t)
    else:
        c = Top()
        c.begin_reading()
        c.read_from_dict(copy.deepcopy(t.write_to_dict()))
        c.finish_reading()
        ctx.check([(s, o.type, str(o.uuid), None, 3) for s, o in want] == asked, "each object is made by the factory of its slot, which can look up what was written")
        ctx.check(all(o.made_for == s for s, o in parts(c)), "each object is made by the factory of its slot")
    got = parts(c)
    ctx.check([(s, type(o)) for s, o in got] == [(s, type(o)) for s, o in want], "the objects are of the same classes, in the same places and order")
    ctx.check(and_([eq(o.v, p.v) for (_, o), (_, p) in zip(got, want)]), "the objects have the same state")
    ctx.check(all(o.persistent_object_parent.parent is c and (o.persistent_object_parent.item_name or o.persistent_object_parent.relationship_name) == s for s, o in got),
              "the objects know where they are")


@harness("C25", quick={"depth": 3}, thorough={"depth": 4},
         bounds="objects with two items and two relationships (of two and one objects) at each of `depth` levels; a change, then a removal, insertion or replacement "
                "of any object at any level; changes of the removed object; putting it elsewhere; any integers")
def levels(ctx, M, depth):
    P = M.Persistence
    Tree = tree_class(P)
    root = grow(Tree, depth, lambda path: 0)
    st = Storage(root)
    context = P.PersistentObjectContext()
    context._set_persistent_storage_for_object(root, st)
    root.persistent_object_context = context
    path, slots = [root], []
    for level in range(ctx.pick("levels", list(range(1, depth + 1)))):
        i = ctx.choice("slot%d" % level, 5)
        path.append(path[-1].slots()[i])
        slots.append(SLOTS[i])

    def all_nodes(t):
        return [t] + [n for s in t.slots() if s is not None for n in all_nodes(s)]
    nodes = all_nodes(root)
    counts = [n.modified_count for n in nodes]

    def only(ns):
        return all(n.modified_count == c + (n in ns) for n, c in zip(nodes, counts))
    stamps = [n.modified for n in path]
    n, parent, slot = path[-1], path[-2], slots[-1]
    n.x = ctx.int("v")
    ctx.check(eqv(st.properties, root.write_to_dict()), "the storage always equals what the object would write")
    ctx.check(only(path) and all(p.modified >= s for p, s in zip(path, stamps)), "a change counts once as a modification of the object and each of its ancestors, and of no other object")
    counts = [k.modified_count for k in nodes]
    if slot in "ab":
        new = grow(Tree, 1, lambda path: 7) if ctx.pick("replace", [False, True]) else None
        parent.set_item(slot, new)
        ctx.check(getattr(parent, slot) is new, "an item is the one set")
    else:
        new = None
        before = getattr(parent, slot[0])
        parent.remove_item(slot[0], n)
        ctx.check(same_ids(getattr(parent, slot[0]), [k for k in before if k is not n]), "exactly the given object is removed")
    gone = all_nodes(n)
    ctx.check(eqv(st.properties, root.write_to_dict()) and all(k.modified_count == c + (k in path[:-1]) for k, c in zip(nodes, counts) if k not in gone),
              "the storage always equals what the object would write")
    ctx.check(all(k.persistent_object_context is None and context.get_registered_object(k.uuid) is None for k in gone)
              and all(k.persistent_object_context is context and context.get_registered_object(k.uuid) is k for k in all_nodes(root)), "exactly the contained objects are in the context")
    saved = copy.deepcopy(st.properties)
    calls = st.calls
    gone[-1].x = 8
    ctx.check(st.calls == calls and eqv(st.properties, saved), "nothing below a removed object changes the storage")
    where = ctx.pick("back", [None, "a", "k", "m"])
    if where == "a" and root.a is not parent:
        root.set_item("a", None)
        root.set_item("a", n)
    elif where in ("k", "m"):
        root.insert_item(where, 0, n)
    else:
        return
    gone[-1].x = ctx.int("w")
    ctx.check(eqv(st.properties, root.write_to_dict()) and all(context.get_registered_object(k.uuid) is k and k.persistent_object_context is context for k in gone),
              "an object put elsewhere is stored there from then on")


class Thing:
    def __init__(self, u=None):
        self.uuid = u or uuid.uuid4()
        self.persistent_object_parent = None


@harness("C26", quick={"steps": 4}, thorough={"steps": 5},
         bounds="two objects, two subscribers with or without functions, any history of `steps` registrations (also of a successor with the same id), unregistrations and subscriptions, "
                "the second registration function subscribing again")
def registration(ctx, M, steps):
    P = M.Persistence
    context = P.PersistentObjectContext()
    things = [Thing(), Thing()]
    calls, events = [], []
    l = context.registration_event.listen(lambda a, b: events.append((a, b)))
    registered = set()
    subs = {0: [], 1: []}
    nsub = 0
    for s in range(steps):
        del calls[:], events[:]
        i = ctx.choice("i%d" % s, 2)
        op = ctx.pick("op%d" % s, ["unregister" if i in registered else "register", "subscribe"] + (["successor"] if i in registered else []))
        if op == "successor":       # the object is dropped without being unregistered; another object with its id takes its place
            t = want = want_events = None
            u = things[i].uuid
            things[i] = None
            gc.collect()
            ctx.check(context.get_registered_object(u) is None, "an object that is no longer alive cannot be looked up")
            things[i] = Thing(u)
        t = things[i]
        want, want_events = [], []
        if op in ("register", "successor"):
            registered.add(i)
            want = [("reg", n, t) for n, kind in subs[i] if kind != "off"]
            nested = [n for n, kind in subs[i] if kind == "nested"]
            want += [("reg", "inner", t)] * len(nested)
            want_events = [(t, None)]
            context.register(t)
            subs[i] += [("inner", "on")] * len(nested)
        elif op == "unregister":
            registered.discard(i)
            want = [("unreg", n, t) for n, kind in subs[i] if kind != "on"]
            want_events = [(None, t)]
            subs[i] = []
            context.unregister(t)
        else:
            kind = ctx.pick("kind%d" % s, ["both", "on", "off"] + (["nested"] if i not in registered else []))
            n = nsub
            nsub += 1
            on = None if kind == "off" else (lambda o, n=n: calls.append(("reg", n, o)))
            if kind == "nested":
                def on(o, n=n):
                    calls.append(("reg", n, o))
                    context.subscribe(o.uuid, lambda o: calls.append(("reg", "inner", o)), None)
            off = None if kind == "on" else (lambda o, n=n: calls.append(("unreg", n, o)))
            context.subscribe(t.uuid, on, off)
            subs[i].append((n, kind))
            if i in registered and kind != "off":
                want = [("reg", n, t)]

        def key(c):
            return (c[0], str(c[1]))
        ctx.check(sorted(map(key, calls)) == sorted(map(key, want)) and all(c[2] is t for c in calls),
                  "subscribers hear of each registration and unregistration of their object exactly once, and of one already registered at once")
        ctx.check(len(events) == len(want_events) and all(a is c and b is d for (a, b), (c, d) in zip(events, want_events)), "each registration is announced once")
        ctx.check(all(context.get_registered_object(things[j].uuid) is (things[j] if j in registered else None) for j in (0, 1)), "exactly registered objects can be looked up")


@harness("C26", quick={}, bounds="each call of the storage interface for an object at depth 0 to 2, or 12 levels further down, below an object with a storage, a second storage at any level")
def forwarding(ctx, M):
    P = M.Persistence
    context = P.PersistentObjectContext()
    log = []

    class Recording:
        def __init__(self, name):
            self.name = name

        def __getattr__(self, attr):
            if attr == "get_properties" or attr.startswith("__"):
                raise AttributeError(attr)
            def call(*args):
                log.append((self.name, attr, args))
                return answer
            return call
    chain = [Thing(), Thing(), Thing()]
    for a, b in zip(chain, chain[1:]):
        b.persistent_object_parent = P.PersistentObjectParent(a, item_name="it")
    top = Recording("top")
    context._set_persistent_storage_for_object(chain[0], top)
    own = ctx.choice("own storage at", 4) - 1
    if own > 0:
        context._set_persistent_storage_for_object(chain[own], Recording("own"))
    dropped = own > 0 and ctx.pick("dropped again", [False, True])
    if dropped:
        context._set_persistent_storage_for_object(chain[own], None)
    answer = ctx.pick("answer", ["result", None, 0, 1, False, True, "", [], [0], {}, 0.0])
    at = ctx.choice("object", 4)
    if at == 3:         # an object far below
        below = [chain[2]]
        for i in range(12):
            below.append(Thing())
            below[-1].persistent_object_parent = P.PersistentObjectParent(below[-2], **({"relationship_name": "kids"} if i % 2 else {"item_name": "it"}))
        o = below[-1]
    else:
        o = chain[at]
    where = "own" if own > 0 and at >= own and not dropped else "top"
    v = ctx.int("v")
    name, fwd, args = ctx.pick("call", [
        ("item_inserted", "insert_item", ("n", 1, chain[2])), ("item_removed", "remove_item", ("n", 1, chain[2])), ("item_set", "set_item", ("n", chain[2])),
        ("property_changed", "set_property", ("n", v)), ("clear_property", "clear_property", ("n",)), ("read_external_data", "read_external_data", ("n",)),
        ("write_external_data", "write_external_data", ("n", v)), ("enter_write_delay", "enter_write_delay", ()), ("exit_write_delay", "exit_write_delay", ()),
        ("is_write_delayed", "is_write_delayed", ()), ("rewrite_item", "rewrite_item", ()), ("get_storage_property", "get_storage_property", ("n",))])
    r = getattr(context, name)(o, *args)
    ctx.check(len(log) == 1 and log[0][0] == where and log[0][1] == fwd and len(log[0][2]) == 1 + len(args) and all(a is b for a, b in zip(log[0][2], (o,) + args)),
              "a change is passed once, unchanged, to the storage of the nearest ancestor that has one")
    if name in ("read_external_data", "is_write_delayed", "get_storage_property"):
        ctx.check(r is answer, "what the storage answers is returned")
    class Keeping:
        properties = {"a": [v, [2]]}

    class Answering:
        kept = {"a": [v, [2]]}

        def get_properties(self, object):
            return self.kept
    for keeper, kept in ((Keeping(), Keeping.properties), (Answering(), Answering.kept)):
        context._set_persistent_storage_for_object(chain[0], keeper)
        got = context.get_properties(chain[0])
        ctx.check(eqv(got, kept), "the properties of an object are those its storage has")
        got["a"][1].append(1)
        got["b"] = 1
        ctx.check(eqv(kept, {"a": [v, [2]]}), "the properties got are a copy")
    free = Thing()
    ctx.check(context._get_persistent_storage_for_object(free) is None, "an object outside has no storage")
    u = free.uuid
    context._set_persistent_storage_for_object(free, top)
    context.register(free)
    w = weakref.ref(free)
    del free
    gc.collect()
    ctx.check(w() is None and context.get_registered_object(u) is None, "the context does not keep objects alive")


@harness("C26", quick=[{"things": 3, "subscribers": 3}, {"things": 2, "subscribers": 12}, {"things": 12, "subscribers": 1}], thorough=[{"things": 5, "subscribers": 6}, {"things": 20, "subscribers": 20}],
         bounds="`things` objects with `subscribers` subscribers each in one of two contexts, all registered and unregistered in any rotation; looked up by any id; unregistered objects may be registered again")
def many_subscribers(ctx, M, things, subscribers):
    P = M.Persistence
    contexts = [P.PersistentObjectContext(), P.PersistentObjectContext()]
    calls, events = [], []
    ls = [c.registration_event.listen(lambda a, b, i=i: events.append((i, a, b))) for i, c in enumerate(contexts)]
    ts = [Thing() for i in range(things)]
    which = ctx.choice("context", 2)
    c, other = contexts[which], contexts[1 - which]
    for n in range(subscribers):
        for i, t in enumerate(ts):
            c.subscribe(t.uuid, lambda o, i=i, n=n: calls.append(("reg", i, n, o, c.get_registered_object(o.uuid))), lambda o, i=i, n=n: calls.append(("unreg", i, n, o, None)))
            other.subscribe(t.uuid, lambda o: calls.append("other"), lambda o: calls.append("other"))
    turn, back = ctx.choice("turn", things), ctx.choice("back", things)
    for what, fn, start in (("reg", c.register, turn), ("unreg", c.unregister, back)):
        for k in range(things):
            i = (start + k) % things
            del calls[:], events[:]
            fn(ts[i])
            ctx.check([x[:3] for x in calls] == [(what, i, n) for n in range(subscribers)] and all(x[3] is ts[i] for x in calls), "each subscriber hears once, in order, of its object")
            ctx.check(what == "unreg" or all(x[4] is ts[i] for x in calls), "an object can be looked up when its registration is announced")
            ctx.check(len(events) == 1 and events[0][0] == which and events[0][1 if what == "reg" else 2] is ts[i] and events[0][2 if what == "reg" else 1] is None, "each registration is announced once, by its context")
            there = {(start + j) % things for j in range(k + 1)}
            ctx.check(all(c.get_registered_object(t.uuid) is (t if (j in there) == (what == "reg") else None) and other.get_registered_object(t.uuid) is None for j, t in enumerate(ts)),
                      "exactly registered objects can be looked up")
    del calls[:], events[:]
    again = ts[ctx.choice("again", things)]
    c.register(again)
    ctx.check(c.get_registered_object(again.uuid) is again and len(events) == 1 and not calls, "an object can be registered again; unregistering ended the subscriptions")


@harness("C26", quick={}, bounds="an object in a context reads a dictionary with its own or another id, any value, up to one item and one related object; then leaves its context or stays; a subscriber to each id")
def read_in_context(ctx, M):
    P = M.Persistence
    Node = node_class(P)
    context = P.PersistentObjectContext()
    v = ctx.int("v")
    other = Node()
    other.x = v
    kids = []
    if ctx.bool("kid"):
        other.append_item("kids", Node())
        kids.append(other.kids[0].uuid)
    if ctx.bool("item"):
        other.set_item("it", Node())
        kids.append(other.it.uuid)
    d = other.write_to_dict()
    n = Node()
    same_id = ctx.bool("same")
    if same_id:
        d["uuid"] = str(n.uuid)
    old, new = n.uuid, uuid.UUID(d["uuid"])
    context._set_persistent_storage_for_object(n, Storage(n))
    n.persistent_object_context = context
    calls, events = [], []
    if not same_id:
        context.subscribe(new, lambda o: calls.append(("reg", o, context.get_registered_object(new))), lambda o: calls.append(("unreg", o, None)))
        l = context.registration_event.listen(lambda a, b: events.append((a, b)))
    n.begin_reading()
    n.read_from_dict(d)
    n.finish_reading()
    ctx.check(n.uuid == new and same(n.x, v), "the object has the id and values it has read")
    ctx.check(context.get_registered_object(new) is n, "an object can be looked up by the id it has read")
    ctx.check(same_id or context.get_registered_object(old) is None, "and no longer by the id it had")
    ctx.check(all(context.get_registered_object(u) is not None and context.get_registered_object(u).persistent_object_context is context for u in kids),
              "the objects it has read are registered")
    if not same_id:
        ctx.check(len(calls) == 1 and calls[0][0] == "reg" and calls[0][1] is n and calls[0][2] is n, "a subscriber to the id read hears of the registration once")
        ctx.check(len([1 for a, b in events if a is n]) == 1, "and it is announced once")
    if ctx.bool("leave"):
        n.persistent_object_context = None
        ctx.check(all(context.get_registered_object(u) is None for u in kids + [new, old]), "an object that left its context cannot be looked up")
