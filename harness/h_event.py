"""C01, C02: events."""
import gc
import io
import sys

from engine.registry import harness
from .lib import *


class Boom(Exception):
    pass


class Owner:
    """An owner that equals every other owner of its kind."""

    def __eq__(self, other):
        return isinstance(other, Owner)

    def __hash__(self):
        return 1


class EmptyOwner:
    """An owner that is falsy, as an empty collection is, equals other ones and cannot be hashed."""

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, EmptyOwner)


class Recv:
    """A listener callback that records its calls in a shared log."""

    def __init__(self, log, tag, ret=None, hook=None):
        self.log, self.tag, self.ret, self.hook = log, tag, ret, hook

    def __call__(self, *args, **kw):
        self.log.append((self.tag, args, tuple(sorted(kw.items()))))
        if self.hook is not None:
            self.hook()
        return self.ret


def make_recv(log, tag, how):
    """Listeners of different Python kinds: closure, bound method, callable object."""
    if how == 0:
        return lambda *a, **k: log.append((tag, a, tuple(sorted(k.items()))))
    r = Recv(log, tag)
    return r.__call__ if how == 1 else r


def fire_and_compare(ctx, ev, log, live, tag, how="fire"):
    x = ctx.int("arg" + tag)
    y = ctx.int("kw" + tag)
    del log[:]
    r = getattr(ev, how)(x, key=y)
    ctx.check([t for t, a, k in log] == live, "each live listener called once, in the order added")
    ctx.check(and_([and_([len(a) == 1 and eq(a[0], x), len(k) == 1 and k[0][0] == "key" and eq(k[0][1], y)])
                    for t, a, k in log]), "listeners receive the arguments of the firing")
    return r


@harness("C01", quick={"steps": 5}, thorough={"steps": 6},
         bounds="any history of `steps` operations (listen, listen with owner, close, drop token, owner dies, with "
                "block, fire) on one event, at most 3 listeners alive, arbitrary integer arguments")
def history(ctx, M, steps):
    ev = M.Event.Event()
    log = []
    tokens = {}     # tag -> token (held by us)
    owners = {}
    live = []       # tags expected to be called, in order
    n = 0
    for k in range(steps):
        ops = ["fire"]
        if len(live) < 3:
            ops += ["listen", "owned", "owned_kept"]
        if live:
            ops += ["close"]
        if tokens:
            ops += ["drop"]
        op = ctx.pick("op%d" % k, ops)
        if op == "listen":
            tokens[n] = ev.listen(make_recv(log, n, n % 3))
            live.append(n)
            n += 1
        elif op in ("owned", "owned_kept"):
            cands = sorted(owners)
            j = ctx.choice("own%d" % k, len(cands) + 1)   # a new owner, or one that owns a listener already
            owners[n] = [Owner, EmptyOwner][n % 2]() if j == len(cands) else owners[cands[j]]
            t = ev.listen(make_recv(log, n, n % 3), owner=owners[n])
            if op == "owned_kept":
                tokens[n] = t
            del t
            live.append(n)
            n += 1
        elif op == "close":
            t = ctx.pick("t%d" % k, live)
            if t in tokens and not (t in owners and ctx.bool("od%d" % k)):
                tokens[t].close()
                live.remove(t)
            else:       # the owner dies, whether or not we hold the token
                owner = owners[t]
                for u in [u for u in owners if owners[u] is owner]:
                    del owners[u]
                    if u in live:
                        live.remove(u)
                del owner
        elif op == "drop":
            t = ctx.pick("t%d" % k, sorted(tokens))
            del tokens[t]
            if t in live and t not in owners:
                live.remove(t)
        else:
            fire_and_compare(ctx, ev, log, live, str(k))
    fire_and_compare(ctx, ev, log, live, "end")
    fire_and_compare(ctx, ev, log, live, "end2")
    held = ev.listeners
    ctx.check(all(any(tokens[t] is x for x in held) for t in live if t in tokens), "the event lists its live listeners")


@harness("C01", quick={}, bounds="three listeners, any of them without a function, any one closed, any integer argument")
def without_function(ctx, M):
    """A listener need not have a function: it is then closed from the start, and firing passes over it."""
    ev = M.Event.Event()
    log = []
    tokens, live = {}, []
    for i in range(3):
        if ctx.bool("f%d" % i):
            tokens[i] = ev.listen(Recv(log, i))
            live.append(i)
        else:
            tokens[i] = ev.listen(None)
    ctx.check(all(tokens[i].closed == (i not in live) for i in tokens), "a listener without a function is closed")
    c = ctx.choice("c", 4)
    if c < 3:
        tokens[c].close()
        if c in live:
            live.remove(c)
    fire_and_compare(ctx, ev, log, live, "end")


@harness("C01", quick={"n": 3}, thorough={"n": 4},
         bounds="1..n listeners; during a firing any one of them closes or drops any token or adds a listener; then "
                "fire again")
def during_fire(ctx, M, n):
    n = ctx.choice("n", n) + 1
    ev = M.Event.Event()
    log = []
    tokens = {}
    actor = ctx.choice("actor", n)
    action = ctx.pick("action", ["close", "drop", "listen", "fire", "none"])
    target = ctx.choice("target", n)
    state = {"done": False}

    def hook():
        if state["done"]:
            return
        state["done"] = True
        if action == "close":
            tokens[target].close()
        elif action == "drop":
            del tokens[target]
        elif action == "listen":
            tokens[n] = ev.listen(Recv(log, n))
        elif action == "fire":
            ev.fire()

    for i in range(n):
        tokens[i] = ev.listen(Recv(log, i, hook=hook if i == actor else None))
    ev.fire()
    calls = [t for t, a, k in log]
    others = [i for i in range(n)]
    if action == "fire":
        ctx.check(calls == list(range(actor + 1)) + list(range(n)) + list(range(actor + 1, n)),
                  "a nested firing reaches every listener and the outer one continues")
    elif action == "close":
        ctx.check(calls == [i for i in range(n) if i <= actor or i != target],
                  "a listener closed during a firing is not called later in it; the others are")
    elif action == "drop":
        # whether a token dropped during the firing still hears it is not specified
        ctx.check([c for c in calls if c != target] == [i for i in range(n) if i != target],
                  "dropping a token during a firing does not affect the other listeners")
        ctx.check(calls.count(target) <= 1, "no listener is called twice")
    elif action == "listen":
        ctx.check(calls == list(range(n)), "a listener added during a firing is not called in it and does not affect the others")
    else:
        ctx.check(calls == list(range(n)), "every listener called once in order")
    del log[:]
    ev.fire()
    want = list(range(n))
    if action in ("close", "drop"):
        want.remove(target)
    if action == "listen":
        want.append(n)
    ctx.check([t for t, a, k in log] == want, "the next firing reaches exactly the live listeners")


@harness("C01", quick={"n": 3}, bounds="n listeners, any subset released by leaving a with block, normally, by an exception or by return")
def with_block(ctx, M, n):
    ev = M.Event.Event()
    log = []
    toks = []
    live = []
    for i in range(n):
        t = ev.listen(Recv(log, i))
        toks.append(t)
        way = ctx.pick("w%d" % i, ["none", "end", "exception", "return"])

        def block():
            with t as entered:
                ctx.check(entered is t, "a with block gives the token")
                log.clear()
                ev.fire()
                ctx.check([c[0] for c in log] == live + [i], "listener active inside the with block")
                if way == "exception":
                    raise Boom()
                if way == "return":
                    return

        if way != "none":
            try:
                block()
                ctx.check(way != "exception", "a with block does not swallow exceptions")
            except Boom:
                pass
        else:
            live.append(i)
    fire_and_compare(ctx, ev, log, live, "e")


@harness("C01", quick={"n": 3}, bounds="n listeners of an event, each with or without an owner and tracing, of an event that traces or not; each of them closed, dropped, losing its owner or kept")
def traced(ctx, M, n):
    """Tracing writes to standard error and changes nothing else."""
    ev = M.Event.Event(trace=ctx.bool("trace"))
    log, live, toks, owners = [], [], [], []
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        for i in range(n):
            owned = ctx.bool("owned%d" % i)
            owners.append(Owner() if owned else None)
            toks.append(ev.listen(Recv(log, i), owner=owners[i], trace=ctx.bool("t%d" % i)))
        for i in range(n):
            what = ctx.pick("w%d" % i, ["keep", "close", "drop"])
            if what == "keep":
                live.append(i)
            elif what == "close":
                toks[i].close()
            else:
                toks[i] = owners[i] = None
        fire_and_compare(ctx, ev, log, live, "e")
        ctx.check(len([l for l in ev.listeners if l is not None and not l.closed]) == len(live), "exactly the live listeners are attached")
    finally:
        sys.stderr = err


@harness("C01", quick={"n": 2}, bounds="two events; listeners on one never hear the other")
def independent_events(ctx, M, n):
    evs = [M.Event.Event(), M.Event.Event()]
    log = []
    toks = []
    where = []
    for i in range(3):
        w = ctx.choice("w%d" % i, 2)
        where.append(w)
        toks.append(evs[w].listen(Recv(log, i)))
    c = ctx.choice("c", 4)
    if c < 3:
        toks[c].close()
    f = ctx.choice("f", 2)
    fire_and_compare(ctx, evs[f], log, [i for i in range(3) if where[i] == f and i != c], "e")


ARGS = [((), ()), ((0, 1), ()), ((), ("a", "b")), ((0, 1, 2), ("listener", "index")), ((0,), ("owner", "trace")),
        ((0, 1), ("args", "keywords"))]


@harness("C01", quick={}, bounds="any integers as arguments of firings with up to three positional and two keyword arguments of several "
                                 "names; listeners that are the same function, or equal bound methods; then one of them closed or dropped")
def argument_shapes(ctx, M):
    ev = M.Event.Event()
    log = []
    pos, names = ctx.pick("shape", ARGS)
    xs = [ctx.int("p%d" % i) for i in pos]
    kw = {nm: ctx.int("k" + nm) for nm in names}
    r = Recv(log, 0)
    same = lambda *a, **k: log.append((0, a, tuple(sorted(k.items()))))
    kind = ctx.pick("kind", ["function", "method"])
    toks = [ev.listen(same if kind == "function" else r.__call__) for i in range(3)]
    how = ctx.pick("how", ["fire", "fire_any"])
    left = 3
    gone = ctx.pick("gone", ["none", "close", "drop", "again"])
    if gone == "close":
        toks[1].close()
        toks[1].close()
        left = 2
    elif gone == "drop":
        toks.pop(1)
        left = 2
    elif gone == "again":
        toks.append(ev.listen(same if kind == "function" else r.__call__))
        left = 4
    getattr(ev, how)(*xs, **kw)
    ctx.check(len(log) == left, "a function listening several times is called once for each")
    ctx.check(and_([and_([same_list(a, xs), [q for q, _ in k] == sorted(kw), and_([eq(v, kw[q]) for q, v in k])]) for t, a, k in log]),
              "listeners receive exactly the arguments of the firing")


@harness("C01", quick={"n": 12}, bounds="n listeners, some with owners; any two of them closed, dropped or losing their owner, one of them "
                                        "perhaps while any listener is called; then an additional one; fired after each")
def many_listeners(ctx, M, n):
    ev = M.Event.Event()
    log = []
    owners = {i: Owner() for i in range(1, n, 3)}
    tokens = {}
    at = ctx.choice("at", 3)
    actor = [0, n // 2, n - 1][at]
    todo = []

    def hook():
        while todo:
            todo.pop()()

    for i in range(n):
        t = ev.listen(Recv(log, i, hook=hook if i == actor else None), owner=owners.get(i))
        if i not in owners:
            tokens[i] = t
        del t
    live = list(range(n))
    for k in range(2):
        i = live[ctx.index("i%d" % k, len(live))]

        def release(i=i):
            if i in owners:
                del owners[i]
            elif k == 0:
                tokens[i].close()
            else:
                del tokens[i]

        del log[:]
        inside = actor in live and ctx.bool("inside%d" % k)
        if inside:
            todo.append(release)
            ev.fire()
            calls = [c[0] for c in log]
            ctx.check([c for c in calls if c != i] == [c for c in live if c != i] and calls.count(i) <= 1,
                      "releasing a listener during a firing does not affect the others")
            todo.clear()
        else:
            release()
        del release
        live.remove(i)
        fire_and_compare(ctx, ev, log, live, str(k))
    tokens[n] = ev.listen(Recv(log, n))
    fire_and_compare(ctx, ev, log, live + [n], "end")


@harness("C01", quick={"n": 3}, bounds="n listeners, one with an owner; during a firing one listener fires again or the voting way, and any "
                                       "listener releases any token or the owner, or adds a listener, at its first or second call")
def nested_fire(ctx, M, n):
    ev = M.Event.Event()
    log = []
    owner = [Owner()]
    tokens = {}
    inner = ctx.pick("inner", ["fire", "fire_any", "fire_all"])
    nester = ctx.choice("nester", n)
    actor = ctx.choice("actor", n)
    when = ctx.choice("when", 2)
    action = ctx.pick("action", ["close", "drop", "listen"])
    target = ctx.choice("target", n)
    count = [0] * n
    answer = inner == "fire_all"
    done = []

    def make(i):
        def hook():
            count[i] += 1
            if i == actor and count[i] == when + 1:
                done.append(len(log))
                if action == "listen":
                    tokens[n] = ev.listen(Recv(log, n, ret=answer))
                elif target == 1:
                    owner.clear()
                elif action == "close":
                    tokens[target].close()
                else:
                    tokens.pop(target, None)
            if i == nester and count[i] == 1:
                getattr(ev, inner)()
        return hook

    for i in range(n):
        if i == 1:
            ev.listen(Recv(log, i, ret=answer, hook=make(i)), owner=owner[0])
        else:
            tokens[i] = ev.listen(Recv(log, i, ret=answer, hook=make(i)))
    ev.fire()
    calls = [c[0] for c in log]
    gone = target if action != "listen" else None
    for i in range(n):
        if i == gone:
            ctx.check(calls.count(i) <= 2, "no listener is called twice for one firing")
            if action == "close" or i == 1:
                ctx.check(i not in calls[done[0]:] if done else True, "a closed listener is not called")
        else:
            ctx.check(calls.count(i) == (2 if count[nester] else 1), "each listener that stays is called once for each firing")
    del log[:]
    ev.fire()
    ctx.check([c[0] for c in log] == [i for i in range(n) if i != gone or not done] + ([n] if action == "listen" and done else []),
              "the next firing reaches exactly the live listeners")


@harness("C01", quick={"depth": 30}, bounds="a listener that fires its event again up to `depth` levels deep, from any of three places")
def deep_fire(ctx, M, depth):
    ev = M.Event.Event()
    n, at = ctx.pick("levels", [1, 4, 8, depth]), ctx.choice("at", 3)
    calls, level = [0, 0, 0], [0]

    def hook(i):
        def call():
            calls[i] += 1
            if i == at and level[0] < n:
                level[0] += 1
                ev.fire()
        return call
    tokens = [ev.listen(hook(i)) for i in range(3)]
    ev.fire()
    ctx.check(calls == [n + 1] * 3, "each listener is called once for each firing, however deep")
    ev.fire()
    ctx.check(calls == [n + 2] * 3, "each listener is called once for each firing")


RET = {"any": lambda l: or_(l), "all": lambda l: and_(l)}


ANSWERS = [None, 0, "", 1, "yes", (0,)]


@harness("C02", quick=[{"n": 5, "kinds": False}, {"n": 3, "kinds": True}], thorough=[{"n": 6, "kinds": False}, {"n": 4, "kinds": True}],
         bounds="0..n listeners with arbitrary boolean answers (kinds: answers of other types, true or false by their truth value)")
def short_circuit(ctx, M, n, kinds):
    ev = M.Event.Event()
    log = []
    k = ctx.choice("k", n + 1)
    rets = [ctx.pick("r%d" % i, ANSWERS) if kinds else ctx.bool("r%d" % i) for i in range(k)]
    toks = [ev.listen(Recv(log, i, ret=rets[i])) for i in range(k)]
    closed = ctx.choice("closed", k + 1)
    how = ctx.pick("how", ["fire", "fire_any", "fire_all"])
    order = list(range(k))
    if closed < k:
        gone = ctx.pick("gone", ["no", "drop", "close"])
        if gone == "drop":
            toks[closed] = None
            order.remove(closed)
        elif gone == "close":
            toks[closed].close()
            order.remove(closed)
    x = ctx.int("x")
    r = getattr(ev, how)(x)
    calls = [c[0] for c in log]
    ctx.check(and_([len(c[1]) == 1 and eq(c[1][0], x) for c in log]), "arguments delivered")
    if how == "fire":
        ctx.check(calls == order, "fire calls every listener whatever it returns")
        return
    stop_on = how == "fire_any"
    want = []
    result = not stop_on
    for i in order:
        want.append(i)
        if bool(rets[i]) == stop_on:
            result = stop_on
            break
    ctx.check(calls == want, "%s stops at the deciding listener" % how)
    ctx.check(r is result, "%s returns the deciding answer" % how)


@harness("C02", quick={"n": 24}, thorough={"n": 40},
         bounds="n listeners, some with owners; one that decides at any position (with a value of any of several kinds), one that is closed or dropped and one that fails, at any positions; "
                "two firings or votes one after the other")
def many_votes(ctx, M, n):
    ev = M.Event.Event()
    log = []
    how = ctx.pick("how", ["fire_any", "fire_all", "fire"])
    stop_on = how == "fire_any"
    decide = ctx.choice("decides", n + 1)
    fails = ctx.choice("fails", n + 1)
    gone = ctx.choice("gone", 3)
    answer = ctx.pick("answer", [True, 1, "no", (0,), 0.5] if stop_on else [False, None, 0, "", ()])
    other = [False, None, 0, "", ()] if stop_on else [True, 1, "no", (0,), 0.5]
    owners = [Owner() if i % 3 == 1 else None for i in range(n)]

    def boom():
        raise Boom()
    toks = [ev.listen(Recv(log, i, ret=answer if i == decide else other[i % 5], hook=boom if i == fails else None),
                      **({"owner": owners[i]} if owners[i] is not None else {})) for i in range(n)]
    order = list(range(n))
    if gone == 1:
        toks[n // 2].close()
        order.remove(n // 2)
    elif gone == 2:
        toks[n - 1] = toks[0] = None
        order.remove(n - 1)
        order.remove(0)
        owners[n - 1] = owners[0] = None
        gc.collect()
    for again in range(2):
        del log[:]
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            r = getattr(ev, how)()
        finally:
            sys.stderr = err
        calls = [c[0] for c in log]
        if how == "fire":
            want = order[:order.index(fails) + 1] if fails in order else order
            ctx.check(calls[:len(want)] == want and len(set(calls)) == len(calls), "every listener is called, up to one that fails at least")
            continue
        want, result = [], not stop_on
        for i in order:
            want.append(i)
            if i == fails:
                result = "failed"
                break
            if i == decide:
                result = stop_on
                break
        ctx.check(calls[:len(want)] == want if result == "failed" else calls == want, "the vote ends at the deciding listener, whatever its position")
        ctx.check(result == "failed" or r is result, "the vote gives the deciding answer")
        ctx.check(not stop_on or not r or decide in calls, "a vote for any is not true unless a listener answered true")


@harness("C02", quick={"n": 4}, thorough={"n": 5}, bounds="n listeners, any subset raises, any kind of firing")
def exceptions_contained(ctx, M, n):
    ev = M.Event.Event(trace=ctx.bool("trace"))
    log = []
    kind = ctx.pick("kind", [Boom, KeyError, StopIteration, "chained"])

    def boom():
        if kind == "chained":
            try:
                raise KeyError("inner")
            except KeyError as e:
                raise Boom("outer") from e
        raise kind()

    bad = [ctx.bool("bad%d" % i) for i in range(n)]
    how = ctx.pick("how", ["fire", "fire_any", "fire_all"])
    ret = how == "fire_all"
    failing = [True]

    def sometimes():
        if failing[0]:
            boom()

    toks = [ev.listen(Recv(log, i, ret=ret, hook=sometimes if bad[i] else None)) for i in range(n)]
    first_bad = n
    for i in range(n):
        if bad[i]:
            first_bad = i
            break
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        r = getattr(ev, how)(1)
        raised = False
        ctx.check(how != "fire_any" or not r, "a vote for any is not true unless a listener answered true")
    except Exception:
        raised = True
    finally:
        err, sys.stderr = sys.stderr, err
    name = "Boom" if kind == "chained" else kind.__name__
    ctx.check((name in err.getvalue()) == (first_bad < n), "a failing listener is reported on standard error")
    ctx.check(not raised, "an exception in a listener does not reach the one who fires")
    calls = [c[0] for c in log]
    ctx.check(calls[:first_bad + 1] == list(range(min(n, first_bad + 1))), "listeners before the failing one are called")
    ctx.check(len(set(calls)) == len(calls), "no listener is called twice")
    failing[0] = False
    del log[:]
    r = getattr(ev, how)(2)
    ctx.check([c[0] for c in log] == list(range(n)), "later firings still reach every listener, also the one that failed")
    ctx.check(how == "fire" or r is (how == "fire_all"), "later firings answer as if nothing had happened")
    for i in range(n):
        if bad[i]:
            toks[i].close()
    del log[:]
    ev.fire(2)
    ctx.check([c[0] for c in log] == [i for i in range(n) if not bad[i]], "later firings still deliver")


@harness("C02", quick={}, bounds="control-flow exceptions (KeyboardInterrupt) are not swallowed")
def keyboard_interrupt(ctx, M):
    ev = M.Event.Event()
    log = []

    def boom():
        raise KeyboardInterrupt()

    t = ev.listen(Recv(log, 0, hook=boom))
    try:
        getattr(ev, ctx.pick("how", ["fire", "fire_any", "fire_all"]))()
        raised = False
    except KeyboardInterrupt:
        raised = True
    ctx.check(raised, "KeyboardInterrupt passes through")
