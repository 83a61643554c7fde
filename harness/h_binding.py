"""C18-C20: validators, bindings, property model."""
from engine.registry import harness
from .lib import *


class Shift:
    """A converter that is exact both ways: target = source + 5."""

    def convert(self, v):
        return v + 5

    def convert_back(self, v):
        return v - 5


class Maybe(Shift):
    """Like Shift, but some values have no counterpart in the target."""

    def convert(self, v):
        return None if v < 0 else v + 5


def make_source(M, **values):
    class Source(M.Observable.Observable):
        def __init__(self):
            super().__init__()
            self.__dict__["_values"] = dict(values)

        def __getattr__(self, n):
            try:
                return self.__dict__["_values"][n]
            except KeyError:
                raise AttributeError(n)

        def __setattr__(self, n, v):
            if "_values" in self.__dict__ and n in self._values:
                self._values[n] = v
                self.notify_property_changed(n)
            else:
                object.__setattr__(self, n, v)
    return Source()


def opt_int(ctx, n):
    return ctx.int(n) if ctx.pick(n + "?", [True, False]) else None


def same(a, b):
    if a is None or b is None:
        return a is b
    return eq(a, b)


@harness("C18", quick={}, bounds="any integers and any optional limits with min <= max")
def validator(ctx, M):
    mn, mx = opt_int(ctx, "mn"), opt_int(ctx, "mx")
    if mn is not None and mx is not None:
        ctx.assume(mn <= mx)
    v = ctx.int("v")
    r = M.Validator.IntegerRangeValidator(mn, mx).validate(v)
    lo_ok = True if mn is None else r >= mn
    hi_ok = True if mx is None else r <= mx
    inside = and_([True if mn is None else v >= mn, True if mx is None else v <= mx])
    ctx.check(and_([lo_ok, hi_ok]), "the validated value is in the range")
    ctx.check(implies(inside, eq(r, v)), "a value in the range is kept")
    ctx.check(or_([eq(r, v)] + [eq(r, x) for x in (mn, mx) if x is not None]), "a value outside becomes the nearest limit")
    if mn is not None:
        ctx.check(implies(v < mn, eq(r, mn)), "a value below becomes the minimum")


@harness("C18", quick={"steps": 4}, thorough={"steps": 5},
         bounds="one bound property, optional converter, optional range validator, optional fallback; any history of `steps` "
                "source changes, changes of another property, updates from the target, target replacement and closing; any integers or None")
def property_binding(ctx, M, steps):
    conv = ctx.pick("converter", [None, "shift", "maybe"])
    val = ctx.pick("validator", [None, "range"])
    fallback = opt_int(ctx, "fallback")
    start = opt_int(ctx, "start")
    src = make_source(M, p=start, other=0)
    kw = {}
    if val:
        lo, hi = ctx.int("lo"), ctx.int("hi")
        ctx.assume(lo <= hi)
        kw["validator"] = M.Validator.IntegerRangeValidator(lo, hi)
    if conv:
        kw["converter"] = Shift() if conv == "shift" else Maybe()
    b = M.Binding.PropertyBinding(src, "p", fallback=fallback, **kw)
    got = []
    b.target_setter = got.append
    cur = start
    closed = False
    old, stale = None, None

    def shown(v):
        return fallback if v is None else kw["converter"].convert(v) if conv else v
    ctx.check(b.source is src and b.converter is kw.get("converter") and b.validator is kw.get("validator"), "the parts of a binding can be looked up")
    ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted source value or the fallback")
    ctx.check(len(got) == 0, "creating a binding does not push to the target")
    for k in range(steps):
        n = len(got)
        op = ctx.pick("op%d" % k, ["set", "set none", "other", "update", "retarget", "close"] + ([] if conv or val else ["update none"]) if not closed else ["set", "update"])
        if op == "set":
            cur = ctx.int("v%d" % k)
            src.p = cur
        elif op == "retarget":
            stale = list(got)
            old = got
            got = list(got)
            b.target_setter = got.append
        elif op == "update none":
            b.update_source(None)
            ctx.check(src.p is None, "updating from the target stores the value")
            cur = None
        elif op == "set none":
            cur = None
            src.p = None
        elif op == "other":
            src.other = ctx.int("v%d" % k)
        elif op == "close":
            b.close()
            closed = True
        elif op == "update":
            t = ctx.int("v%d" % k)
            b.update_source(t)
            if not closed:
                want = t - 5 if conv else t
                if val:
                    want = ite(want < lo, lo, ite(want > hi, hi, want))
                ctx.check(same(src.p, want), "updating from the target stores the back converted, validated value")
                cur = src.p
            else:
                ctx.check(same(src.p, cur), "a closed binding does not change the source")
        if closed or op in ("other", "retarget"):
            ctx.check(len(got) == n, "the target is not touched by other properties or after closing")
        else:
            ctx.check(len(got) == n + 1 and same(got[-1], shown(cur)), "each change reaches the target once, converted, or as the fallback")
            ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted source value or the fallback")
    if old is not None:
        ctx.check(len(old) == len(stale), "a target that was replaced is not touched")


@harness("C18", quick={"steps": 4}, thorough={"steps": 5},
         bounds="two bindings to the same or to different properties of one source, one of them without a target at first; any history of `steps` source changes, updates "
                "from either target and closing of either; a target may close the other binding when it is set; any integers")
def two_bindings(ctx, M, steps):
    src = make_source(M, p=ctx.int("p"), q=ctx.int("q"))
    names = ["p", ctx.pick("second", ["p", "q"])]
    bs = [M.Binding.PropertyBinding(src, names[0]), M.Binding.PropertyBinding(src, names[1], converter=Shift())]
    got = [[], []]
    closed = [False, False]
    closes = ctx.pick("closes", [False, True])

    def setter(i):
        def set_target(v):
            got[i].append(v)
            if i == 0 and closes and not closed[1]:
                closed[1] = True
                bs[1].close()
        return set_target
    bs[0].target_setter = setter(0)
    src.q = src.p = ctx.int("early")            # the second binding has no target yet
    if not closed[1]:
        bs[1].target_setter = setter(1)
    for k in range(steps):
        n = [len(g) for g in got]
        was = list(closed)
        op, which = ctx.pick("op%d" % k, [(o, w) for o in ("set", "update", "close") for w in (0, 1) if o == "set" or not closed[w]])
        v = ctx.int("v%d" % k)
        if op == "set":
            name = ["p", "q"][which]
            setattr(src, name, v)
        elif op == "update":
            name = names[which]
            bs[which].update_source(v)
            v = v - 5 if which else v
        else:
            closed[which] = True
            bs[which].close()
            name = None
        if name:
            ctx.check(eq(getattr(src, name), v), "the source has the value given")
        for i in (0, 1):
            if name == names[i] and not was[i] and not closed[i]:
                ctx.check(len(got[i]) == n[i] + 1 and eq(got[i][-1], v + 5 if i else v), "each change reaches the target of every binding of the property once")
            elif name != names[i] or was[i]:
                ctx.check(len(got[i]) == n[i], "changes of other properties do not reach the target, nor any after closing")


def reentrant_run(ctx, M, kind):
    """The target (or another listener of the source) changes the source, or closes the binding, while the target is being set."""
    extra = ctx.int("extra")

    def val(v):
        return v if kind == "property" else (extra, v) if kind == "tuple" else Struct(a=v, b=extra)
    src = make_source(M, p=val(ctx.int("start")))
    early = []
    what = ctx.pick("what", ["update", "set", "close", "early"])
    if what == "early":

        def react(name):
            if not early:
                early.append(name)
                src.p = val(ctx.int("nested"))
        hold = src.property_changed_event.listen(react)
    if kind == "property":
        b = M.Binding.PropertyBinding(src, "p", converter=Shift())
    elif kind == "tuple":
        b = M.Binding.TuplePropertyBinding(src, "p", 1, converter=Shift())
    else:
        b = M.Binding.PropertyAttributeBinding(src, "p", "a", converter=Shift())
    got = []
    nested = ctx.int("nested2")

    def setter(v):
        got.append(v)
        if len(got) == 1:
            if what == "update":
                b.update_source(nested + 5)
            elif what == "set":
                src.p = val(nested)
            elif what == "close":
                b.close()
    b.target_setter = setter
    first = ctx.int("first")
    by = ctx.pick("by", ["source", "target"])
    if by == "source":
        src.p = val(first)
    else:
        b.update_source(first + 5)
    cur = src.p if kind == "property" else src.p[1] if kind == "tuple" else src.p.a
    if what == "close":
        ctx.check(len(got) == 1 and eq(got[0], first + 5) and eq(cur, first), "the change reaches the target")
        src.p = val(nested)
        b.update_source(first)
        ctx.check(len(got) == 1 and eq(src.p if kind == "property" else src.p[1] if kind == "tuple" else src.p.a, nested), "a binding closed by its target does not act")
    elif what == "early":
        ctx.check(len(got) == 2 and eq(got[-1], cur + 5), "the target ends with the current value")
    else:
        ctx.check(eq(cur, nested), "the source has the value given by the target")
        ctx.check(len(got) == 2 and and_([eq(got[0], first + 5), eq(got[1], nested + 5)]), "each change reaches the target, also one made while the target is set")
        if kind == "tuple":
            ctx.check(eq(src.p[0], extra), "other parts are kept")
    if what != "close":
        last = ctx.int("last")
        n = len(got)
        src.p = val(last)
        ctx.check(len(got) == n + 1 and eq(got[-1], last + 5), "later changes reach the target")


REENT = "one binding with a converter; during a change made by source or target the target updates the source, sets it, or closes the binding, or a listener that was there before changes the source; any integers"


@harness("C18", quick={}, bounds=REENT)
def reentrant(ctx, M):
    reentrant_run(ctx, M, "property")


@harness("C19", quick=[{"kind": "tuple"}, {"kind": "attribute"}], bounds=REENT)
def reentrant_parts(ctx, M, kind):
    reentrant_run(ctx, M, kind)


@harness("C19", quick={"steps": 2}, thorough={"steps": 3},
         bounds="a tuple (at first also a list) of up to 3 integers or None, or no tuple, bound element 0..2, optional converter and fallback, any history of `steps` "
                "source changes, target updates, other properties and closing")
def tuple_binding(ctx, M, steps):
    idx = ctx.choice("idx", 3)
    conv = ctx.pick("converter", [None, "shift"])
    fallback = opt_int(ctx, "fallback")

    def a_tuple(n):
        size = ctx.pick(n + "size", [None, 0, 1, 2, 3])
        if size is None:
            return None
        gap = ctx.pick(n + "gap", [False, True]) if size > idx else False      # the bound element may be None
        t = tuple(None if gap and i == idx else ctx.int("%s.%d" % (n, i)) for i in range(size))
        return list(t) if n == "start" and size and ctx.bool("list") else t
    cur = a_tuple("start")
    src = make_source(M, p=cur, other=0)
    b = M.Binding.TuplePropertyBinding(src, "p", idx, converter=Shift() if conv else None, fallback=fallback)
    got = []
    b.target_setter = got.append
    closed = False

    def shown(t):
        if t is None or idx >= len(t) or t[idx] is None:
            return fallback
        return t[idx] + 5 if conv else t[idx]
    ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted element or the fallback")
    for k in range(steps):
        n = len(got)
        op = ctx.pick("op%d" % k, ["set", "other", "update", "close"] if not closed else ["set", "update"])
        if op == "set":
            cur = a_tuple("v%d" % k)
            src.p = cur
        elif op == "other":
            src.other = 1
        elif op == "close":
            b.close()
            closed = True
        else:
            t = ctx.int("v%d" % k) if conv or ctx.pick("v%d?" % k, [True, False]) else None
            before = cur
            b.update_source(t)
            if not closed:
                now = src.p
                want = t - 5 if conv else t
                old = list(before or ())
                ctx.check(isinstance(now, tuple) and len(now) == max(len(old), idx + 1), "the tuple keeps its length or grows to hold the element")
                ctx.check(and_([same(now[i], want if i == idx else old[i] if i < len(old) else None) for i in range(len(now))]),
                          "only the bound element changes")
                ctx.check(before is None or now is not before, "the source gets a new tuple")
                cur = now
            else:
                ctx.check(src.p is cur, "a closed binding does not change the source")
        if closed or op == "other":
            ctx.check(len(got) == n, "the target is not touched by other properties or after closing")
        else:
            ctx.check(len(got) == n + 1 and same(got[-1], shown(cur)), "each change reaches the target once, converted, or as the fallback")
            ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted element or the fallback")


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Empty(Struct):
    def __len__(self):
        return 0


class Computed(Struct):
    """The attribute is a property of the class."""
    a = property(lambda self: self._a, lambda self, value: setattr(self, "_a", value))


@harness("C19", quick={"steps": 2}, thorough={"steps": 3},
         bounds="a property holding None or an object (also a falsy one) with or without the attribute (of its own or computed) or with it None; in-place or functional update; optional converter and "
                "fallback, any history of `steps` operations")
def attribute_binding(ctx, M, steps):
    conv = ctx.pick("converter", [None, "shift"])
    functional = ctx.pick("functional", [False, True])
    fallback = opt_int(ctx, "fallback")

    def an_object(n):
        kind = ctx.pick(n + "kind", ["none", "with", "without", "gap", "empty", "computed"])
        if kind == "none":
            return None
        if kind == "computed":
            return Computed(_a=ctx.int(n + ".a"), b=7)
        cls = Empty if kind == "empty" else Struct       # one that is falsy
        return cls(b=7) if kind == "without" else cls(a=None if kind == "gap" else ctx.int(n + ".a"), b=7)

    def update(obj, name, value):
        new = obj.__class__(**obj.__dict__)
        setattr(new, name, value)
        return new
    cur = an_object("start")
    src = make_source(M, p=cur, other=0)
    b = M.Binding.PropertyAttributeBinding(src, "p", "a", converter=Shift() if conv else None, fallback=fallback,
                                           update_attribute_fn=update if functional else None)
    got = []
    b.target_setter = got.append
    closed = False

    def shown(o):
        if o is None or getattr(o, "a", None) is None:
            return fallback
        return o.a + 5 if conv else o.a
    ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted attribute or the fallback")
    for k in range(steps):
        n = len(got)
        op = ctx.pick("op%d" % k, (["set", "other", "close"] + (["update"] if cur is not None else [])) if not closed else ["set", "update"])
        if op == "set":
            cur = an_object("v%d" % k)
            src.p = cur
        elif op == "other":
            src.other = 1
        elif op == "close":
            b.close()
            closed = True
        else:
            t = ctx.int("v%d" % k)
            b.update_source(t)
            if not closed:
                now = src.p
                ctx.check(now is not None and same(now.a, t - 5 if conv else t), "updating from the target stores the back converted value in the attribute")
                ctx.check((now is not cur) == functional and now.b == 7, "the rest of the object stays")
                cur = now
            else:
                ctx.check(src.p is cur, "a closed binding does not change the source")
        if closed or op == "other":
            ctx.check(len(got) == n, "the target is not touched by other properties or after closing")
        else:
            ctx.check(len(got) == n + 1 and same(got[-1], shown(cur)), "each change reaches the target once, converted, or as the fallback")
            ctx.check(same(b.get_target_value(), shown(cur)), "the target value is the converted attribute or the fallback")


@harness("C19", quick={"items": 2, "steps": 3}, thorough={"items": 3, "steps": 4},
         bounds="a list model of up to `items` items, any history of `steps` insertions, removals, notifications of another list and closing at any positions")
def list_binding(ctx, M, items, steps):
    n = ctx.choice("n", items + 1)
    src = M.ListModel.ListModel("items", items=[Item(i) for i in range(n)])
    b = M.Binding.ListBinding(src, "items")
    target = list(b.items)
    bad = []

    def inserter(item, index):
        bad.append(not (0 <= index <= len(target)))
        target.insert(index, item)

    def remover(index):
        bad.append(not (0 <= index < len(target)))
        del target[index]
    part = ctx.pick("part", ["both", "inserter", "remover"])
    if part != "remover":
        b.inserter = inserter
    if part != "inserter":
        b.remover = remover
    closed = False
    ctx.check(same_ids(target, src.items), "the binding gives access to the items")
    for k in range(steps):
        ops = ["insert", "other"] + (["remove"] if src.items else []) + ([] if closed else ["close"])
        op = ctx.pick("op%d" % k, ops)
        before = list(target)
        if op == "insert":
            src.insert_item(ctx.choice("at%d" % k, len(src.items) + 1), Item(10 + k))
        elif op == "remove":
            src.remove_item(ctx.choice("at%d" % k, len(src.items)))
        elif op == "other":
            src.notify_insert_item("others", Item(99), 0)
            src.notify_remove_item("others", Item(99), 0)
        else:
            b.close()
            closed = True
        if closed:
            ctx.check(same_ids(target, before), "a closed binding does not change the target")
        elif part != "both":
            if op == {"inserter": "remove", "remover": "insert"}[part] or op == "other":
                ctx.check(same_ids(target, before) and same_ids(b.items, src.items), "changes of a kind without function are ignored")
            else:
                ctx.check(not any(bad) and len(target) == len(before) + (1 if op == "insert" else -1), "each change is relayed")
                target[:] = src.items
            target[:] = src.items
        else:
            ctx.check(same_ids(b.items, src.items), "the binding gives access to the items")
            ctx.check(not any(bad) and same_ids(target, src.items), "the target list follows the source list")


@harness("C20", quick={"steps": 6}, thorough={"steps": 7},
         bounds="any initial value and `steps` assignments of integers or None, default or custom equality (equal remainder modulo 10, or never equal); the value may be assigned to itself")
def property_model(ctx, M, steps):
    custom = ctx.pick("cmp", [False, True, "never"])
    calls = []

    def cmp(a, b):
        calls.append((a, b))
        return custom != "never" and a % 10 == b % 10
    start = opt_int(ctx, "start")
    m = M.Model.PropertyModel(start, cmp=cmp) if custom else M.Model.PropertyModel(start)
    log = []
    l = m.property_changed_event.listen(lambda key: log.append(("event", key, m.value)))
    if ctx.pick("callback", [True, False]):
        m.on_value_changed = lambda v: log.append(("call", v, m.value))
        expect = ["event", "call"]
    else:
        expect = ["event"]
    cur = start
    ctx.check(same(m.value, cur), "the model holds the initial value")
    for k in range(steps):
        del log[:]
        v = m.value if ctx.pick("same%d" % k, [False, True]) else opt_int(ctx, "v%d" % k)
        m.value = v
        if cur is None or v is None:
            changed = not (cur is None and v is None)
        else:
            changed = True if custom == "never" else not_(v % 10 == cur % 10) if custom else not_(eq(v, cur))
        if len(log) == 0:
            ctx.check(not_(changed), "every change is announced")
            ctx.check(same(m.value, cur), "an equal value leaves the model as it is")
        else:
            ctx.check(changed, "assigning an equal value is not announced")
            ctx.check([e[0] for e in log] == expect, "a change is announced once, to listeners and then to the callback")
            ctx.check(log[0][1] == "value" and and_([same(e[2], v) for e in log]), "the new value is in place when it is announced")
            ctx.check(same(m.value, v), "the model holds the assigned value")
            cur = v
    ctx.check(all(a is not None and b is not None for a, b in calls), "the comparison is not asked about None")
    m.close()
    del log[:]
    m.value = 5 if cur is None else cur + 5
    ctx.check(not [e for e in log if e[0] == "call"], "the callback of a closed model is not called")


@harness("C20", quick={}, bounds="one assignment of any integer or None from a listener that is being told of another assignment; any integers")
def reentrant_assignment(ctx, M):
    a, b = ctx.int("a"), opt_int(ctx, "b")
    start = opt_int(ctx, "start")
    m = M.Model.PropertyModel(start)
    told, called = [], []

    def changed(key):
        told.append(m.value)
        if len(told) == 1:
            m.value = b
    l = m.property_changed_event.listen(changed)
    m.on_value_changed = called.append
    m.value = a
    if start is not None and bool(eq(a, start)):
        ctx.check(not told and not called, "an equal value is not announced")
        return
    if b is not None and bool(eq(a, b)):
        ctx.check(len(told) == 1 and len(called) == 1 and same(called[0], a), "assigning the same value again is not announced")
    else:
        ctx.check(len(told) == 2 and same(told[0], a) and same(told[1], b), "both assignments are announced")
        ctx.check(len(called) == 2 and or_([and_([same(called[0], x), same(called[1], y)]) for x, y in ((a, b), (b, a))]),
                  "the callback gets the value of each assignment once")
        ctx.check(same(m.value, b), "the last assignment holds")


@harness("C20", quick={}, bounds="any key, item and index arguments for each of the eight notifications")
def observable(ctx, M):
    o = M.Observable.Observable()
    log = []
    names = ["property_changed", "item_set", "item_cleared", "item_inserted", "item_removed", "item_added", "item_discarded", "item_content_changed"]
    ls = [getattr(o, n + "_event").listen(lambda *a, n=n: log.append((n, a))) for n in names]
    elsewhere = M.Observable.Observable()
    others = []
    ls += [getattr(elsewhere, n + "_event").listen(lambda *a, n=n: others.append((n, a))) for n in names]
    key, item, index = "k", ctx.pick("item", [Item(0), None, ""]), ctx.int("index") if ctx.pick("index?", [True, False]) else None
    name = ctx.pick("which", names)
    if name == "property_changed":
        o.notify_property_changed(key); want = (key,)
    elif name == "item_set":
        o.notify_set_item(key, item); want = (key, item)
    elif name == "item_cleared":
        o.notify_clear_item(key); want = (key,)
    elif name == "item_inserted":
        o.notify_insert_item(key, item, index); want = (key, item, index)
    elif name == "item_removed":
        o.notify_remove_item(key, item, index); want = (key, item, index)
    elif name == "item_added":
        o.notify_add_item(key, item); want = (key, item)
    elif name == "item_discarded":
        o.notify_discard_item(key, item); want = (key, item)
    else:
        o.notify_item_content_changed(key, item, index); want = (key, item, index)
    ctx.check(len(log) == 1 and log[0][0] == name, "a notification fires its own event once")
    ctx.check(not others, "other objects are not concerned")
    a = log[0][1]
    ctx.check(len(a) == len(want) and and_([eq(x, y) if isinstance(y, (int, sym.SymInt)) else x is y for x, y in zip(a, want)]),
              "the arguments are passed on in order")


@harness("C19", quick={"size": 12}, thorough={"size": 24},
         bounds="a tuple of `size` integers (or 4 fewer, or 2), any bound element, one source change and one update; a list of `size` items, one insertion and one removal at any positions; any integers")
def large_parts(ctx, M, size):
    if ctx.pick("kind", ["tuple", "list"]) == "tuple":
        idx = ctx.choice("idx", size)
        n = ctx.pick("n", [size, size - 4, 2])
        cur = tuple(ctx.int("a%d" % i) for i in range(n))
        src = make_source(M, p=(), other=0)
        b = M.Binding.TuplePropertyBinding(src, "p", idx)
        got = []
        b.target_setter = got.append
        src.p = cur
        ctx.check(len(got) == 1 and same(got[0], cur[idx] if idx < n else None), "each change reaches the target once")
        v = ctx.int("v")
        b.update_source(v)
        now = src.p
        ctx.check(isinstance(now, tuple) and len(now) == max(n, idx + 1), "the tuple keeps its length or grows to hold the element")
        ctx.check(and_([same(now[i], v if i == idx else cur[i] if i < n else None) for i in range(len(now))]), "only the bound element changes")
        return
    src = M.ListModel.ListModel("items", items=[Item(i) for i in range(size)])
    b = M.Binding.ListBinding(src, "items")
    target = list(b.items)
    b.inserter = lambda item, index: target.insert(index, item)
    b.remover = lambda index: target.pop(index)
    src.insert_item(ctx.choice("at0", size + 1), Item(100))
    ctx.check(same_ids(target, src.items), "the target list follows the source list")
    src.remove_item(ctx.choice("at1", size + 1))
    ctx.check(same_ids(target, src.items), "the target list follows the source list")


@harness("C20", quick={}, bounds="any two of nineteen values of different types (true and false values, numbers, texts, sequences, dictionaries, None), assigned one after the other; two models; a callback before and after closing")
def value_types(ctx, M):
    values = [None, 0, 1, True, False, 0.0, 1.0, 1.5, "", "a", "A", (), (1,), [], [1], [1, 2], {}, {"a": 1}, float("nan")]
    i, j = ctx.choice("i", len(values)), ctx.choice("j", len(values))
    a, b = values[i], values[j]
    if isinstance(b, list):
        b = list(b)             # equal, but another object
    m, other = M.Model.PropertyModel(a), M.Model.PropertyModel(5)
    log, told = [], []
    l = m.property_changed_event.listen(log.append)
    l2 = m.property_changed_event.listen(lambda key: log.append(m.value))
    l3 = other.property_changed_event.listen(told.append)
    m.on_value_changed = lambda v: log.append(v)
    m.value = b
    changed = (a is None) != (b is None) if a is None or b is None else not a == b
    if changed:
        ctx.check(len(log) == 3 and log[0] == "value" and log[1] is b and log[2] is b, "a change is announced once, to listeners and then to the callback")
        ctx.check(m.value is b, "the model holds the assigned value")
    else:
        ctx.check(not log and m.value is a, "assigning an equal value does nothing")
    ctx.check(not told and other.value == 5, "models do not affect each other")
    del log[:]
    m.on_value_changed = None
    m.value = "next"
    ctx.check(log == ["value", "next"], "without a callback only the listeners are told")


KINDS = [None, 0, "", False, (), [], 1, "x", (1,), 0.0]


class Wrap:
    """A converter for values of every kind, None included; it also tells what it was given."""

    def __init__(self):
        self.back = []

    def convert(self, v):
        return ("shown", v)

    def convert_back(self, v):
        self.back.append(v)
        return v[1] if isinstance(v, tuple) and v and v[0] == "shown" else ("typed", v)


class Check:
    def __init__(self):
        self.seen = []

    def validate(self, v):
        self.seen.append(v)
        return v if v != "" else "valid"


def kinds_run(ctx, M, kind):
    conv = Wrap() if ctx.bool("converter") else None
    check = Check() if kind == "property" and ctx.bool("validator") else None
    functional = kind == "attribute" and ctx.bool("functional")

    def update(obj, name, value):
        new = Struct(**(obj.__dict__ if obj is not None else {"b": 7}))
        setattr(new, name, value)
        return new

    def make(v):
        return v if kind == "property" else (8, v) if kind == "tuple" else Struct(a=v, b=7)

    def part(p):
        return p if kind == "property" else None if p is None else p[1] if kind == "tuple" else p.a
    values = [ctx.pick("first", [None, 0, "x"]), KINDS[ctx.choice("second", len(KINDS))]]
    src = make_source(M, p=make(values[0]))
    fallback = ctx.pick("fallback", [None, 0])
    if kind == "property":
        b = M.Binding.PropertyBinding(src, "p", converter=conv, validator=check, fallback=fallback)
    elif kind == "tuple":
        b = M.Binding.TuplePropertyBinding(src, "p", 1, converter=conv, fallback=fallback)
    else:
        b = M.Binding.PropertyAttributeBinding(src, "p", "a", converter=conv, fallback=fallback, update_attribute_fn=update if functional else None)
    got = []
    b.target_setter = got.append

    def shown():
        v = part(src.p)
        return fallback if v is None else ("shown", v) if conv else v

    def same_kind(a, b):
        return type(a) is type(b) and a == b
    ctx.check(same_kind(b.get_target_value(), shown()), "the target value is the converted source value or the fallback")
    if ctx.bool("new fallback"):
        fallback = b.fallback = "" if fallback is None else "other"
        ctx.check(same_kind(b.get_target_value(), shown()), "the fallback can be changed")
    src.p = make(values[1])
    ctx.check(len(got) == 1 and same_kind(got[0], shown()), "each change reaches the target once, converted, or as the fallback")
    if functional and ctx.bool("gone"):
        src.p = None
        ctx.check(len(got) == 2 and same_kind(got[1], shown()), "each change reaches the target once, converted, or as the fallback")
    del got[:]
    t = ctx.pick("typed", [None, 0, "", (), "x"])
    b.update_source(t)
    want = ("typed", t) if conv else t
    if check:
        ctx.check(len(check.seen) == 1 and same_kind(check.seen[0], want), "the back converted value is validated")
        want = "valid" if want == "" else want
    ctx.check(same_kind(part(src.p), want), "updating from the target stores the back converted, validated value, whatever it is")
    ctx.check(kind == "property" or (src.p[0] == 8 if kind == "tuple" else src.p.b == 7), "the other parts stay")
    ctx.check(len(got) == 1 and same_kind(got[0], shown()), "an update from the target reaches the target")
    ctx.check(same_kind(b.get_target_value(), shown()), "the target value is the converted source value or the fallback")


KINDB = ("two source values and one target value of any of ten kinds (None, false values, numbers, texts, sequences), an optional converter and validator for all of them, a fallback (also a "
         "false one) that may be changed later")


@harness("C18", quick={}, bounds=KINDB)
def kinds_of_values(ctx, M):
    kinds_run(ctx, M, "property")


@harness("C19", quick=[{"kind": "tuple"}, {"kind": "attribute"}], bounds=KINDB)
def kinds_of_parts(ctx, M, kind):
    kinds_run(ctx, M, kind)


@harness("C19", quick={}, bounds="a list of values of ten kinds (None, false values, numbers, texts, sequences); two insertions and removals at any positions")
def kinds_of_items(ctx, M):
    src = M.ListModel.ListModel("items", items=list(KINDS))
    b = M.Binding.ListBinding(src, "items")
    target = list(b.items)
    calls = []

    def inserter(item, index):
        calls.append("i")
        target.insert(index, item)

    def remover(index):
        calls.append("r")
        del target[index]
    b.inserter, b.remover = inserter, remover
    for k in range(2):
        del calls[:]
        if ctx.pick("op%d" % k, ["insert", "remove"]) == "insert":
            src.insert_item(ctx.choice("at%d" % k, len(src.items) + 1), ctx.pick("it%d" % k, [None, 0, "x"]))
            ctx.check(calls == ["i"], "an insertion is relayed once")
        else:
            src.remove_item(ctx.choice("at%d" % k, len(src.items)))
            ctx.check(calls == ["r"], "a removal is relayed once")
        ctx.check(same_ids(target, src.items) and same_ids(b.items, src.items), "the target list follows the source list")
