"""C21, C22: streams."""
from engine.registry import harness
from .h_binding import make_source, opt_int, same
from .lib import *
from engine.sched import Scheduler
from .h_threads import STDLIB
from .vloop import VirtualLoop


class Watch:
    """Records what a stream fires and what its value was at that moment."""

    def __init__(self, stream):
        self.stream = stream
        self.log = []
        self.l = stream.value_stream.listen(self._fired)

    def _fired(self, v):
        self.log.append((v, self.stream.value))

    def take(self):
        r, self.log = self.log, []
        return r


MAPS = {"div": lambda x: -1 if x is None else x // 3,                          # several inputs map to one output
        "pair": lambda x: ("none", 0) if x is None else ("some", x // 3),       # equal outputs are different objects
        "maybe": lambda x: None if x is None else (None if x % 2 == 0 else x)}  # outputs may be missing


def same_mapped(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and and_([same(x, y) if not isinstance(x, str) else x == y for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return eq(a, b) if not isinstance(a, tuple) and not isinstance(b, tuple) else False


@harness("C21", quick=[{"steps": 4, "fn": "div", "none": 0}, {"steps": 3, "fn": "pair", "none": 1}, {"steps": 3, "fn": "maybe", "none": 1}],
         thorough=[{"steps": 5, "fn": "div", "none": 0}, {"steps": 3, "fn": "div", "none": 1}, {"steps": 4, "fn": "pair", "none": 1}, {"steps": 3, "fn": "maybe", "none": 1}],
         bounds="any initial integer (or None) and `steps` assignments of any integers (or None); map functions with equal outputs for several inputs, "
                "with equal but different output objects, and with missing outputs; a stream model of the map stream")
def value_and_map(ctx, M, steps, fn, none):
    S = M.Stream
    value = opt_int if none else (lambda ctx, n: ctx.int(n))
    f = MAPS[fn]
    start = value(ctx, "start")
    v = S.ValueStream(start)
    v.add_ref()
    m = S.MapStream(v, f)
    m.add_ref()
    model = M.Model.StreamValueModel(m, value=ctx.pick("model starts", [None, 7]) if none else None)
    seen = []
    ml = model.property_changed_event.listen(lambda key: seen.append(model.value))
    wv, wm = Watch(v), Watch(m)
    ctx.check(v.ref_count == 2 and m.ref_count == 2, "a derived stream holds one reference to its source")
    cur = start
    ctx.check(and_([same(v.value, cur), same_mapped(m.value, f(cur)), same_mapped(model.value, f(cur))]), "values are right from the start")
    for k in range(steps):
        x = value(ctx, "v%d" % k)
        v.value = x
        ch = not_(same(x, cur))
        mch = not_(same_mapped(f(x), f(cur)))
        a, b = wv.take(), wm.take()
        ctx.check(not_(ch) if not a else and_([ch, len(a) == 1, same(a[0][0], x), same(a[0][1], x)]),
                  "a value stream fires exactly when its value changes, with the new value in place")
        ctx.check(not_(mch) if not b else and_([mch, len(b) == 1, same_mapped(b[0][0], f(x)), same_mapped(b[0][1], f(x))]),
                  "a map stream fires exactly when the mapped value changes, with the mapped value")
        ctx.check(and_([same(v.value, x), same_mapped(m.value, f(x)), same_mapped(model.value, f(x))]), "derived values follow the source")
        ctx.check(not_(mch) if not seen else and_([mch, len(seen) == 1, same_mapped(seen[0], f(x))]), "a stream model announces each change once")
        del seen[:]
        cur = x
    model.close()
    m.remove_ref()
    ctx.check(v.ref_count == 1, "a stream that is no longer referenced releases its source")
    wm.take()
    v.value = 10 if cur is None else cur + 10
    ctx.check(not wm.log and not seen, "a released stream is silent")


@harness("C21", quick={"steps": 3}, thorough={"steps": 5},
         bounds="a stream model of a stream of integers or None with equality modulo 10, any initial values, `steps` changes of the stream")
def model_equality(ctx, M, steps):
    start = opt_int(ctx, "start")
    first = opt_int(ctx, "model starts")

    def cmp(a, b):
        return a % 10 == b % 10

    def differ(a, b):
        return (a is not None or b is not None) if a is None or b is None else not_(a % 10 == b % 10)
    v = M.Stream.ValueStream(start)
    v.add_ref()
    model = M.Model.StreamValueModel(v, value=first, cmp=cmp)
    seen = []
    l = model.property_changed_event.listen(lambda key: seen.append(model.value))
    cur = start if bool(differ(start, first)) else first
    ctx.check(same(model.value, cur), "a model takes the value of its stream unless it is equal to what it has")
    for k in range(steps):
        x = opt_int(ctx, "v%d" % k)
        v.value = x
        ch = bool(differ(x, cur))
        ctx.check(len(seen) == (1 if ch else 0), "a stream model announces each change once")
        if ch:
            cur = x
        ctx.check(same(model.value, cur), "a stream model follows its stream")
        del seen[:]
    model.close()
    ctx.check(v.ref_count == 1, "a closed stream model releases its stream")


@harness("C21", quick=[{"inputs": [0, 1], "steps": 3}, {"inputs": [0, 1, 0], "steps": 3}, {"inputs": [0, 1, 2], "steps": 2}, {"inputs": [0], "steps": 2}, {"inputs": [0, 0], "steps": 2}],
         thorough=[{"inputs": [0, 1, 2], "steps": 4}, {"inputs": [0, 1, 0, 1], "steps": 3}, {"inputs": [0, 0], "steps": 3}, {"inputs": [0], "steps": 3}],
         bounds="combined streams of different sources and of a source used more than once, with any integers or None (the first may be constant), `steps` assignments to any of them, "
                "default tuple or a combining function")
def combine_latest(ctx, M, inputs, steps):
    S = M.Stream
    n = max(inputs) + 1
    cur = [opt_int(ctx, "s%d" % i) for i in range(n)]
    vs = [S.ValueStream(x) for x in cur]
    if n > 1 and ctx.bool("constant"):
        # the first is constant
        vs[0] = S.ConstantStream(cur[0])
    for v in vs:
        v.add_ref()
    fn = ctx.pick("fn", [None, "weighted"])

    def weigh(*xs):
        return sum((i + 1) * (x if x is not None else 1000) for i, x in enumerate(xs))
    c = S.CombineLatestStream([vs[i] for i in inputs], weigh if fn else None)
    c.add_ref()
    w = Watch(c)

    def is_want(x):
        want = [cur[i] for i in inputs]
        return eq(x, weigh(*want)) if fn else isinstance(x, tuple) and len(x) == len(want) and and_([same(p, q) for p, q in zip(x, want)])
    ctx.check(is_want(c.value), "the combined value is right from the start")
    ctx.check(all(v.ref_count == 2 if inputs.count(i) == 1 else v.ref_count >= 2 for i, v in enumerate(vs)), "a combined stream holds one reference to each source")
    for k in range(steps):
        i = ctx.choice("i%d" % k, n)
        if isinstance(vs[i], S.ConstantStream):
            i = 1
        x = opt_int(ctx, "v%d" % k)
        ch = not_(same(x, cur[i]))
        cur[i] = x
        vs[i].value = x
        a = w.take()
        ctx.check(is_want(c.value), "the combined value always uses the latest value of every source")
        ctx.check(not_(ch) if not a else and_([ch, 1 <= len(a) <= inputs.count(i), is_want(a[-1][0])]), "each change of a source fires the combined value once")
    c.remove_ref()
    w.take()
    ctx.check(all(v.ref_count == 1 for v in vs), "a stream that is no longer referenced releases its sources")
    for i, v in enumerate(vs):
        if not isinstance(v, S.ConstantStream):
            v.value = 1 if cur[i] is None else cur[i] + 1
    ctx.check(not w.log, "a released stream is silent")


@harness("C21", quick={"steps": 3}, thorough={"steps": 4},
         bounds="an input stream switching between three items (two of which lead to the same inner stream) and None, `steps` operations: switch, announcing an item that changed again, change of either "
                "inner stream (any integers or None)")
def concat(ctx, M, steps):
    S = M.Stream
    inner = [S.ValueStream(opt_int(ctx, "a")), S.ValueStream(ctx.int("b"))]
    for s in inner:
        s.add_ref()
    cur = ctx.pick("start", [None, 0, 1])

    class Key:
        def __init__(self, i):
            self.i = i
    keys = [Key(0), Key(1), Key(0)]
    src = S.ValueStream(None if cur is None else keys[cur])
    src.add_ref()
    c = S.ConcatStream(src, lambda key: inner[key.i])
    c.add_ref()
    w = Watch(c)

    def check_state():
        ctx.check(same(c.value, None if cur is None else inner[keys[cur].i].value), "the value is that of the stream made for the current item, None without item")
        ctx.check(all(inner[i].ref_count == (2 if cur is not None and i == keys[cur].i else 1) for i in range(2)), "exactly the current inner stream is referenced")
    check_state()
    for k in range(steps):
        op = ctx.pick("op%d" % k, ["switch", "again", 0, 1])
        if op == "again":
            # the item itself changed, and the input announces it again
            if cur is None:
                continue
            keys[cur].i = 1 - keys[cur].i
            src.value_stream.fire(keys[cur])
            a = w.take()
            ctx.check(len(a) >= 1 and and_([same(a[-1][0], c.value), same(a[-1][1], c.value)]), "switching fires the new stream's value")
        elif op == "switch":
            new = ctx.pick("to%d" % k, [x for x in (None, 0, 1, 2) if x != cur])
            cur = new
            src.value = None if new is None else keys[new]
            a = w.take()
            ctx.check(len(a) >= 1 and and_([same(a[-1][0], c.value), same(a[-1][1], c.value)]), "switching fires the new stream's value")
        else:
            x = opt_int(ctx, "v%d" % k)
            old = inner[op].value
            inner[op].value = x
            a = w.take()
            if cur is not None and op == keys[cur].i:
                ctx.check(same(old, x) if not a else and_([len(a) == 1, same(a[0][0], x)]), "changes of the current inner stream are passed on")
            else:
                ctx.check(not a, "changes of other streams are not passed on")
        check_state()
    c.remove_ref()
    cur = None
    ctx.check(all(s.ref_count == 1 for s in inner) and src.ref_count == 1, "a stream that is no longer referenced releases its sources")
    w.take()
    for s in inner:
        s.value = 1 if s.value is None else s.value + 1
    src.value = keys[1] if src.value is not keys[1] else keys[0]
    ctx.check(not w.log, "a released stream is silent")


@harness("C21", quick={"steps": 4}, thorough={"steps": 5},
         bounds="an input stream of any integers or None, a new inner stream (of a stream of its own) for each item, `steps` operations")
def concat_made(ctx, M, steps):
    S = M.Stream
    base = S.ValueStream(ctx.int("base"))
    base.add_ref()
    src = S.ValueStream(None)
    src.add_ref()
    made = []

    def make(item):
        made.append(S.MapStream(base, lambda x: x + item))
        return made[-1]
    c = S.ConcatStream(src, make)
    c.add_ref()
    w = Watch(c)
    cur = None
    for k in range(steps):
        if ctx.pick("op%d" % k, ["item", "base"]) == "item":
            x = opt_int(ctx, "v%d" % k)
            if x is not None:
                ctx.assume(x > 0)
            changed = not_(same(x, cur))
            n = len(made)
            src.value = cur = x
            if changed:
                ctx.check(len(made) == n + (x is not None), "one stream is made for each item")
        else:
            base.value = ctx.int("v%d" % k)
        a = w.take()
        ctx.check(same(c.value, None if cur is None else base.value + cur), "the value is that of the stream made for the current item, None without item")
        ctx.check(all(same(x, y) is True or bool(same(x, y)) for x, y in a), "what is fired is the value")
        ctx.check(base.ref_count == 1 + (cur is not None), "streams made for earlier items are released")
    c.remove_ref()
    ctx.check(base.ref_count == 1 and src.ref_count == 1, "a stream that is no longer referenced releases everything")


@harness("C21", quick=[{"steps": 3, "streamed": 0}, {"steps": 2, "streamed": 1}], thorough=[{"steps": 4, "streamed": 0}, {"steps": 3, "streamed": 1}],
         bounds="a property (any integers or None) of an object, or of the current object of a stream of two objects (which may be equal) or None, `steps` operations "
                "(set, set other property, switch, set the property of an object that is not current), default or custom equality")
def property_stream(ctx, M, steps, streamed):
    S = M.Stream
    equal = streamed and ctx.pick("equal objects", [False, True])

    class Source(M.Observable.Observable):
        def __init__(self, p):
            super().__init__()
            self.p, self.other = p, 0

        def put(self, name, x):
            setattr(self, name, x)
            self.notify_property_changed(name)

    class EqualSource(Source):
        def __eq__(self, o):
            return isinstance(o, EqualSource)

        def __hash__(self):
            return 1

    class Current(S.AbstractStream):
        """A stream of objects that announces every switch, also between equal objects."""

        def __init__(self, o):
            super().__init__()
            self.value_stream = M.Event.Event()
            self.now = o

        @property
        def value(self):
            return self.now

        def switch(self, o):
            self.now = o
            self.value_stream.fire(o)
    cls = EqualSource if equal else Source
    objs = [cls(opt_int(ctx, "a")), cls(ctx.int("b"))]
    custom = ctx.pick("cmp", [False, True])

    def close10(a, b):
        if a is None or b is None:
            return a is b
        return bool(a // 10 == b // 10)
    cur = ctx.pick("start", [0, None]) if streamed else 0
    src = None
    if streamed:
        src = Current(None if cur is None else objs[cur])
        src.add_ref()
    s = S.PropertyChangedEventStream(src if streamed else objs[0], "p", cmp=close10 if custom else None)
    s.add_ref()
    w = Watch(s)
    shown = None if cur is None else objs[cur].p
    ctx.check(same(s.value, shown), "the value is the property from the start")
    ctx.check(not streamed or src.ref_count == 2, "a property stream holds one reference to its source")
    for k in range(steps):
        op = ctx.pick("op%d" % k, (["set", "other"] if cur is not None else []) + (["switch", "idle"] if streamed else []))
        if op == "set":
            objs[cur].put("p", opt_int(ctx, "v%d" % k))
        elif op == "other":
            objs[cur].put("other", 1)
        elif op == "idle":
            objs[0 if cur is None else 1 - cur].put("p", ctx.int("v%d" % k))
        else:
            cur = ctx.pick("to%d" % k, [x for x in (0, 1, None) if x != cur])
            src.switch(None if cur is None else objs[cur])
        a = w.take()
        if cur is None:                 # what is shown without an object is not specified
            ctx.check(op == "switch" or not a, "without an object nothing is fired")
            if op == "switch":
                shown = s.value
            ctx.check(same(s.value, shown), "without an object the value stays")
            continue
        now = objs[cur].p
        differs = not_(close10(now, shown)) if custom else not_(same(now, shown))
        if a:
            ctx.check(op in ("set", "switch") and and_([differs, len(a) == 1, same(a[0][0], now), same(a[0][1], now)]), "a change fires the new property value once")
            shown = now
        else:
            ctx.check(not_(differs), "every change of the property of the current object is fired")
        ctx.check(same(s.value, shown), "the value is the property of the current object")
    s.remove_ref()
    w.take()
    for o in objs:
        o.put("p", 100 if o.p is None else o.p + 100)
    if streamed:
        src.switch(objs[1])
    ctx.check(not w.log and (src is None or src.ref_count == 1), "a released stream is silent and releases its source")


@harness("C21", quick=[{"inputs": 6, "steps": 1}, {"inputs": 20, "steps": 1}], thorough=[{"inputs": 10, "steps": 2}, {"inputs": 40, "steps": 1}],
         bounds="`inputs` combined streams with any integers, `steps` changes of any of them")
def many_inputs(ctx, M, inputs, steps):
    S = M.Stream
    cur = [ctx.int("s%d" % i) for i in range(inputs)]
    vs = [S.ValueStream(x).add_ref() for x in cur]
    c = S.CombineLatestStream(vs).add_ref()
    w = Watch(c)

    def right(t):
        return isinstance(t, tuple) and len(t) == inputs and and_([eq(x, y) for x, y in zip(t, cur)])
    ctx.check(right(c.value) and all(v.ref_count == 2 for v in vs), "the combined value is right from the start")
    for k in range(steps):
        i, d = ctx.choice("i%d" % k, inputs), ctx.int("d%d" % k)
        ctx.assume(d > 0)
        cur[i] = cur[i] + d
        vs[i].value = cur[i]
        a = w.take()
        ctx.check(len(a) == 1 and right(a[0][0]) and right(a[0][1]) and right(c.value), "each change of a source fires the combined value once")
    c.remove_ref()
    ctx.check(all(v.ref_count == 1 for v in vs), "a stream that is no longer referenced releases its sources")
    w.take()
    for v in vs:
        v.value = v.value + 1
    ctx.check(not w.take(), "a released stream is silent")


@harness("C21", quick={"steps": 3}, thorough={"steps": 4},
         bounds="a chain of two sources, two map streams, a combined stream, another map stream, a concatenated stream and two stream models, any integers, `steps` changes of "
                "any source; the streams in between are referenced only by the chain")
def chain(ctx, M, steps):
    S = M.Stream
    a, b = ctx.int("a"), ctx.int("b")
    sa, sb = S.ValueStream(a).add_ref(), S.ValueStream(b).add_ref()
    half = S.MapStream(sa, lambda x: x // 2)
    both = S.CombineLatestStream([half, sb, S.ConstantStream(7)], lambda x, y, z: (x, y, z))
    total = S.MapStream(both, lambda t: t[0] + 10 * t[1] + t[2]).add_ref()
    which = S.ConcatStream(total, lambda t: S.MapStream(sb, lambda y: (t, y))).add_ref()
    model, other = M.Model.StreamValueModel(total), M.Model.StreamValueModel(total)
    other.close()
    seen = []
    l = model.property_changed_event.listen(lambda key: seen.append(model.value))
    w = Watch(total)
    for k in range(steps + 1):
        want = a // 2 + 10 * b + 7
        if k:
            changed = not_(eq(want, last))
            log = w.take()
            ctx.check(not_(changed) if not log else and_([changed, len(log) == 1, eq(log[0][0], want)]), "a map stream fires exactly when the mapped value changes")
            ctx.check(not_(changed) if not seen else and_([changed, len(seen) == 1, eq(seen[0], want)]), "a stream model announces each change once")
            del seen[:]
        ctx.check(and_([eq(total.value, want), eq(model.value, want)]), "the end of a chain is the function of its sources")
        if want:        # an item that is not true is like no item
            ctx.check(which.value is not None and and_([eq(which.value[0], want), eq(which.value[1], b)]), "the value is that of the stream made for the current item")
        last = want
        if k < steps:
            v = ctx.int("v%d" % k)
            if ctx.pick("s%d" % k, ["a", "b"]) == "a":
                a = sa.value = v
            else:
                b = sb.value = v
    model.close()
    which.remove_ref()
    ctx.check(total.ref_count == 1 and half.ref_count == 1 and both.ref_count == 1, "each stream holds one reference to its inputs")
    total.remove_ref()
    ctx.check(half.ref_count == 0 and both.ref_count == 0 and sa.ref_count == 1 and sb.ref_count == 1, "releasing the end of a chain releases the chain")


@harness("C21", quick={}, bounds="a stream referenced up to three times, any integers; two value streams; a constant stream")
def shared_stream(ctx, M):
    S = M.Stream
    v, other = S.ValueStream(ctx.int("a")).add_ref(), S.ValueStream(5).add_ref()
    m = S.MapStream(v, lambda x: x + 1)
    n = 1 + ctx.choice("refs", 3)
    for i in range(n):
        m.add_ref()
    models = [M.Model.StreamValueModel(m) for i in range(2)]
    w, wo = Watch(m), Watch(other)
    for i in range(n - 1):
        m.remove_ref()
    models[0].close()
    d = ctx.int("d")
    ctx.assume(d != 0)
    v.value = v.value + d
    ctx.check(len(w.take()) == 1 and eq(m.value, v.value + 1) and eq(models[1].value, v.value + 1), "a stream lives as long as it is referenced")
    models[1].close()
    ctx.check(m.ref_count == 1 and v.ref_count == 2 and not wo.log and other.value == 5, "exactly the references given up are gone")
    m.remove_ref()
    ctx.check(v.ref_count == 1, "a stream that is no longer referenced releases its source")
    k = S.ConstantStream(3).add_ref()
    ctx.check(k.value == 3 and S.MapStream(k, lambda x: x * 2).add_ref().value == 6, "a constant stream has its value")


# ---------------------------------------------------------------- C22 timed streams

PERIOD = 1.0


@harness("C22", quick=[{"steps": 5, "none": 0}, {"steps": 4, "none": 1}], thorough=[{"steps": 6, "none": 0}, {"steps": 5, "none": 1}],
         bounds="any history of `steps` operations: new input (any integer, or None), waiting 0.4 or 1 period, closing; a listener that may feed back one new input while firing",
         assumes=["asyncio's own loop runs on virtual time"])
def debounce(ctx, M, steps, none):
    S = M.Stream
    value = opt_int if none else (lambda ctx, n: ctx.int(n))
    loop = VirtualLoop()
    try:
        v = S.ValueStream(value(ctx, "start"))
        v.add_ref()
        d = S.DebounceStream(v, PERIOD, loop)
        d.add_ref()
        fed = [value(ctx, "fed")] if ctx.pick("feedback", [False, True]) else []
        log = []

        def fired(x):
            log.append((loop.time(), x, v.value))
            if fed:
                v.value = fed.pop()
        l = d.value_stream.listen(fired)
        closed = False
        quiet = 0.0             # time since the last input change
        changed = True          # input changed since the last firing (the initial value counts)
        for k in range(steps):
            op = ctx.pick("op%d" % k, ["input", "short", "period"] + ([] if closed else ["close"]))
            had_fed = bool(fed)
            n = len(log)
            if op == "input":
                x = value(ctx, "v%d" % k)
                if not same(x, v.value):
                    changed = True
                    quiet = 0.0
                v.value = x
            elif op == "close":
                d.remove_ref()
                closed = True
            else:
                dt = PERIOD * 0.4 if op == "short" else PERIOD
                loop.advance(dt)
                quiet = 0.0 if had_fed and not fed else quiet + dt
                if len(log) > n:
                    ctx.check(changed, "nothing is fired when the input did not change")
                    changed = had_fed and not fed and not same(v.value, log[-1][1])
            if closed and op != "close":
                ctx.check(len(log) == n, "nothing is fired after closing")
            if not closed:
                ctx.check(same(d.value, v.value), "the value is the latest input")
                if quiet >= PERIOD:
                    ctx.check(len(log) > 0 and same(log[-1][1], v.value), "the latest input is fired within one period")
        ctx.check(and_([same(x, y) for t, x, y in log]), "what is fired is the latest input at that moment")
        ctx.check(all(b[0] - a[0] >= PERIOD * 0.999 for a, b in zip(log, log[1:])), "firings are at least one period apart")
        if closed:
            ctx.check(v.ref_count == 1, "closing releases the input")
    finally:
        loop.shutdown()


@harness("C22", quick=[{"steps": 5, "none": 0}, {"steps": 4, "none": 1}], thorough=[{"steps": 6, "none": 0}, {"steps": 5, "none": 1}],
         bounds="any history of `steps` operations: new input (any integer, or None), waiting 0.4 or 1 period, closing; a listener that may feed back one new input while firing",
         assumes=["asyncio's own loop runs on virtual time"])
def sample(ctx, M, steps, none):
    S = M.Stream
    value = opt_int if none else (lambda ctx, n: ctx.int(n))
    loop = VirtualLoop()
    try:
        v = S.ValueStream(value(ctx, "start"))
        v.add_ref()
        d = S.SampleStream(v, PERIOD, loop)
        d.add_ref()
        log = []
        fed = [value(ctx, "fed")] if ctx.pick("feedback", [False, True]) else []

        def fired(x):
            log.append((loop.time(), x, v.value))
            if fed:
                v.value = fed.pop()
        l = d.value_stream.listen(fired)
        ctx.check(same(d.value, v.value), "the value starts as the input value")
        closed = False
        quiet = 0.0
        changed = True          # input changed since the last firing (the first sample counts)
        for k in range(steps):
            op = ctx.pick("op%d" % k, ["input", "short", "period"] + ([] if closed else ["close"]))
            had_fed = bool(fed)
            n = len(log)
            if op == "input":
                x = value(ctx, "v%d" % k)
                if not same(x, v.value):
                    changed = True
                    quiet = 0.0
                v.value = x
            elif op == "close":
                d.remove_ref()
                closed = True
            else:
                dt = PERIOD * 0.4 if op == "short" else PERIOD
                loop.advance(dt)
                quiet = 0.0 if had_fed and not fed else quiet + dt
                if len(log) > n:
                    ctx.check(changed, "nothing is fired when the input did not change")
                    changed = had_fed and not fed and not same(v.value, log[-1][1])
            if closed and op != "close":
                ctx.check(len(log) == n, "nothing is fired after closing")
            if not closed:
                if op == "input":
                    ctx.check(len(log) == n, "an input alone fires nothing")
                if quiet >= PERIOD:
                    ctx.check(len(log) > 0 and same(log[-1][1], v.value), "the latest input is fired within one period")
                if log:
                    ctx.check(same(d.value, log[-1][1]), "the value is the last sample")
        ctx.check(and_([same(x, y) for t, x, y in log]), "a sample is the latest input at that moment")
        ctx.check(all(b[0] - a[0] >= PERIOD * 0.999 for a, b in zip(log, log[1:])), "samples are at least one period apart")
        if closed:
            ctx.check(v.ref_count == 1, "closing releases the input")
    finally:
        loop.shutdown()


@harness("C22", quick={"funcs": 3}, thorough={"funcs": 4},
         bounds="up to `funcs` functions with any results (integers or None), one of which may fail, whose evaluations finish in any order, requested at any moments",
         assumes=["run_in_executor finishes jobs in any order"])
def function_stream(ctx, M, funcs):
    S = M.Stream
    loop = VirtualLoop()
    try:
        vals = [opt_int(ctx, "f%d" % i) for i in range(funcs)]
        broken = ctx.pick("fails", [None] + list(range(funcs - 1)))        # one that is not the last

        def evaluate(i):
            if i == broken:
                raise ValueError("intended")
            return vals[i]
        fs = [lambda i=i: evaluate(i) for i in range(funcs)]
        v = S.ValueStream(fs[0])
        v.add_ref()
        m = M.Model.FuncStreamValueModel(v, loop)
        loop.advance(0)
        seen = []
        l = m.property_changed_event.listen(lambda key: seen.append(m.value))
        asked, newest_done = 1, 0
        pending = [0]
        while pending or asked < funcs:
            ops = (["ask"] if asked < funcs else []) + list(range(len(pending)))
            op = ctx.pick("op%d.%d" % (asked, len(pending) + 10 * newest_done + len(seen)), ops)
            if op == "ask":
                v.value = fs[asked]
                pending.append(asked)
                asked += 1
                loop.advance(0)
            else:
                i = pending.pop(op)
                loop.finish_job(op)
                if i != broken:
                    newest_done = max(newest_done, i + 1)
                ctx.check(same(m.value, vals[newest_done - 1]) if newest_done else m.value is None, "the value is that of the latest function evaluated so far")
        ctx.check(same(m.value, vals[funcs - 1]), "in the end the value is that of the last function")
        m.close()
        ctx.check(v.ref_count == 1, "closing releases the stream")
    finally:
        loop.shutdown()


@harness("C22", quick=[{"inputs": 10}, {"inputs": 60}], thorough=[{"inputs": 12}, {"inputs": 200}],
         bounds="`inputs` changes of the input (any integers) at equal distances of 0.3, 0.6 or 1.5 periods of 0.25, 1 or 4 seconds, then two periods without change; both kinds of stream",
         assumes=["asyncio's own loop runs on virtual time"])
def long_run(ctx, M, inputs):
    S = M.Stream
    period, gap = ctx.pick("period", [0.25, 1.0, 4.0]), ctx.pick("gap", [0.3, 0.6, 1.5])
    kind = ctx.pick("kind", ["debounce", "sample"])
    loop = VirtualLoop()
    try:
        v = S.ValueStream(ctx.int("start")).add_ref()
        d = (S.DebounceStream if kind == "debounce" else S.SampleStream)(v, period, loop).add_ref()
        log = []
        l = d.value_stream.listen(lambda x: log.append((loop.time(), x, v.value)))
        for k in range(inputs):
            step = ctx.int("d%d" % k)
            ctx.assume(step != 0)
            v.value = v.value + step
            loop.advance(gap * period)
        loop.advance(2 * period)
        ctx.check(and_([eq(x, y) for t, x, y in log]), "what is fired is the latest input at that moment")
        ctx.check(all(b[0] - a[0] >= period * 0.999 for a, b in zip(log, log[1:])), "firings are at least one period apart")
        ctx.check(len(log) > 0 and eq(log[-1][1], v.value) and log[-1][0] <= ((inputs - 1) * gap + 1.001) * period, "the latest input is fired within one period")
        if gap > 1:
            ctx.check(len(log) >= inputs, "each input that lasts longer than a period is fired")
        n = len(log)
        loop.advance(5 * period)
        ctx.check(len(log) == n, "nothing is fired when the input did not change")
        d.remove_ref()
        v.value = v.value + 1
        loop.advance(5 * period)
        ctx.check(len(log) == n and v.ref_count == 1, "nothing is fired after closing")
    finally:
        loop.shutdown()


@harness("C22", quick={"preemptions": 2}, thorough={"preemptions": 3},
         bounds="a thread setting two values while samples are taken on the event loop's thread; up to `preemptions` involuntary switches", assumes=STDLIB)
def sample_threads(ctx, M, preemptions):
    with Scheduler(ctx, ["Stream"], preemptions) as (S, M):
        loop = VirtualLoop()
        try:
            v = M.Stream.ValueStream(0)
            v.add_ref()
            s = M.Stream.SampleStream(v, 1.0, loop)
            s.add_ref()
            w = Watch(s)

            def set_values():
                v.value = 1
                v.value = 2
            t = S.spawn(set_values)
            loop.advance(1.5)
            loop.advance(1.0)
            t.join()
            loop.advance(2.0)
            fired = [x for x, y in w.log]
            ctx.check(not S.errors, "setting values on another thread does not fail")
            ctx.check(fired[-1:] == [2] and s.value == 2, "the latest value, also of another thread, is fired within a period")
            ctx.check(all(a <= b for a, b in zip(fired, fired[1:])) and all(x in (0, 1, 2) for x in fired), "values of another thread are fired in order")
            ctx.check(all(x == y for x, y in w.log), "the value is in place when it is fired")
            s.remove_ref()
        finally:
            if not S.aborting and S.pending is None:
                loop.shutdown()
