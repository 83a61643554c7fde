"""C03, C28-C32: code used from several threads, under every schedule within the bounds."""
import gc
import weakref

from engine.registry import harness
from engine.sched import Scheduler
from .lib import *

STDLIB = ["operations of threading and queue objects are atomic and wake waiting threads in any order (stand-ins in engine/sched.py)",
          "a thread can be interrupted before any source line, attribute or item store, iteration step and operation of threading, queue and time objects"]


@harness("C03", quick=[{"preemptions": 2, "threads": 2, "how": "fire", "owned": 0}, {"preemptions": 1, "threads": 2, "how": "fire", "owned": 1},
                       {"preemptions": 1, "threads": 2, "how": "fire_any", "owned": 0}, {"preemptions": 1, "threads": 2, "how": "fire_all", "owned": 0}],
         thorough=[{"preemptions": 3, "threads": 2, "how": "fire", "owned": 0}, {"preemptions": 2, "threads": 2, "how": "fire", "owned": 1},
                   {"preemptions": 2, "threads": 2, "how": "fire_any", "owned": 1}, {"preemptions": 2, "threads": 2, "how": "fire_all", "owned": 1},
                   {"preemptions": 2, "threads": 3, "how": "fire", "owned": 0}],
         bounds="two lasting listeners; `threads` threads, each firing (or voting), adding a listener, dropping a listener, closing one "
                "or (owned) adding one with an owner, letting go of an owner; up to `preemptions` involuntary switches",
         assumes=STDLIB, path_seconds=30)
def events(ctx, M, preemptions, threads, how, owned):
    with Scheduler(ctx, ["Event"], preemptions) as (S, M):
        e = M.Event.Event()
        heard = {}

        def hear(name):
            heard[name] = []

            def called(v):
                heard[name].append(v)
                return how == "fire_all"
            return called
        first = e.listen(hear("gone0"))
        lasting = e.listen(hear("lasting"))
        tokens = {"gone%d" % i: e.listen(hear("gone%d" % i)) for i in range(1, threads)}
        tokens["gone0"] = first
        del first
        last = e.listen(hear("last"))
        kinds, new, fired, owners, answers = [], {}, [], {}, []

        def fire(i):
            answers.append(getattr(e, how)(i))

        def add(i):
            new[i] = e.listen(hear("new%d" % i))

        def own(i):
            owners["new%d" % i] = Owner()
            e.listen(hear("new%d" % i), owner=owners["new%d" % i])
            new[i] = None

        def drop(i):
            tokens.pop("gone%d" % i)

        def disown(i):
            owners.pop("gone%d" % i)

        def close(i):
            tokens["gone%d" % i].close()
        ts = []
        ops = [fire, add, own, drop, disown, close]
        gone = 3   # from here on the listener of the thread goes
        for i in range(threads):
            k = ctx.pick("op%d" % i, [0, 1, 2, 3, 4, 5] if owned else [0, 1, 3, 5])
            if i and k < kinds[-1]:
                return   # same set of operations in another order
            kinds.append(k)
            if ops[k] is fire:
                fired.append(i)
            if ops[k] is disown:
                owners["gone%d" % i] = Owner()
                tokens.pop("gone%d" % i)
                e.listen(hear("gone%d" % i), owner=owners["gone%d" % i])
        for i, k in enumerate(kinds):
            ts.append(S.spawn(ops[k], i))
        S.join_all(ts)
        ctx.check(not S.errors, "no operation on an event fails because of another thread")
        ctx.check(how == "fire" or all(a is (how == "fire_all") for a in answers), "votes are not affected by other threads")
        for n in ("lasting", "last"):
            ctx.check(sorted(heard[n]) == sorted(fired), "a listener that stays is called exactly once for every firing")
        for i in range(threads):
            h = heard["gone%d" % i]
            ctx.check(len(set(h)) == len(h) and (kinds[i] >= gone or sorted(h) == sorted(fired)), "no listener is called twice for one firing")
        before = {n: len(h) for n, h in heard.items()}
        e.fire("end")
        for n, h in heard.items():
            active = n in ("lasting", "last") or n.startswith("new") or kinds[int(n[4:])] < gone
            ctx.check(h[before[n]:] == (["end"] if active else []), "afterwards exactly the remaining listeners are called, each once")
        ctx.check(e.listener_count == 2 + len(new) + len(tokens), "afterwards exactly the remaining listeners are attached")


class Owner:
    pass


@harness("C29", quick={"steps": 4}, thorough={"steps": 7},
         bounds="any history of `steps` references added, removed, removed without check, held by a with block (left normally or by an exception)")
def references(ctx, M, steps):
    class Counted(M.ReferenceCounting.ReferenceCounted):
        deleted = 0

        def about_to_delete(self):
            self.deleted += 1
            self.at = self.ref_count
    c = Counted()
    count, dead = 0, False
    ctx.check(c.ref_count == 0, "an object starts without references")
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["add", "with", "fail"] + (["remove", "uncounted"] if count else ["underflow"]))
        if op == "add":
            ctx.check(c.add_ref() is c, "adding a reference returns the object")
            count += 1
        elif op == "remove":
            c.remove_ref()
            count -= 1
            dead = dead or count == 0
        elif op == "uncounted":
            c.remove_ref(check=False)
            count -= 1
        elif op == "underflow":
            try:
                c.remove_ref()
                ctx.fail("removing a reference that does not exist is refused")
            except AssertionError:
                pass
        else:
            try:
                with c.ref():
                    ctx.check(c.ref_count == count + 1, "a with block holds one reference")
                    if op == "fail":
                        raise KeyError()
                ctx.check(op == "with", "an exception leaves the with block")
            except KeyError:
                ctx.check(op == "fail", "an exception leaves the with block")
            dead = dead or count == 0
        ctx.check(c.ref_count == count, "the count is the number of references added and not removed")
        ctx.check(c.deleted == (1 if dead else 0), "the object is told once, when the last reference is removed for the first time")
        ctx.check(not c.deleted or c.at == 0, "the count is zero when the object is told")


@harness("C29", quick={"many": 300}, thorough={"many": 3000},
         bounds="two objects with any number 1..4 or `many` references added directly or by nested with blocks, released by any of the ways; an object that "
                "uses itself or fails when told; the order of initialisation with other base classes", assumes=STDLIB)
def many_references(ctx, M, many):
    with Scheduler(ctx, ["ReferenceCounting"], 0) as (S, M):
        S.max_points = 100 * many
        use = ctx.pick("told", ["nothing", "uses itself", "fails"])

        class Base:
            def __init__(self):
                self.base = 1

        class Counted(M.ReferenceCounting.ReferenceCounted, Base):
            told = 0

            def about_to_delete(self):
                self.told += 1
                self.at = self.ref_count
                if use == "uses itself":
                    with self.ref():
                        self.inside = self.ref_count
                elif use == "fails":
                    raise KeyError()
        c, d = Counted(), Counted()
        n = ctx.pick("n", [1, 2, 3, 4, many])
        how = ctx.pick("how", ["direct", "nested", "unchecked"])
        failed = []

        def run():
            d.add_ref()
            try:
                if how in ("direct", "unchecked"):
                    for i in range(n):
                        c.add_ref()
                    ctx.check(c.ref_count == n and c.told == 0, "every reference is counted")
                    for i in range(n):
                        ctx.check(c.told == 0, "the object is not told while there are references")
                        c.remove_ref(check=how == "direct")
                else:
                    def nest(k):
                        with c.ref():
                            if k > 1:
                                nest(k - 1)
                            else:
                                ctx.check(c.ref_count == min(n, 200), "with blocks nest")
                        ctx.check((c.told == 0) == (c.ref_count > 0), "the object is not told while there are references")
                    nest(min(n, 200))
            except KeyError:
                failed.append(1)
        t = S.spawn(run)
        S.join_all([t])
        ctx.check(not S.errors, "references do not fail")
        ctx.check(c.ref_count == 0, "no reference is left")
        ctx.check(c.told == (0 if how == "unchecked" else 1), "the object is told once")
        ctx.check(not c.told or c.at == 0, "the count is zero when the object is told")
        ctx.check(not failed or use == "fails", "nothing fails unless the object does")
        ctx.check(d.ref_count == 1 and d.told == 0 and c.base == 1, "another object has references of its own")


@harness("C29", quick={"preemptions": 2}, thorough={"preemptions": 3},
         bounds="two threads adding and removing references of an object with one or two of them; up to `preemptions` involuntary switches",
         assumes=STDLIB)
def shared_references(ctx, M, preemptions):
    with Scheduler(ctx, ["ReferenceCounting"], preemptions) as (S, M):
        class Counted(M.ReferenceCounting.ReferenceCounted):
            deleted = 0

            def about_to_delete(self):
                self.deleted += 1
                self.at = self.ref_count
        c = Counted()
        scripts = [["remove"], ["add", "remove", "remove"], ["add", "remove"], ["add"]]
        s1 = ctx.choice("first", 4)
        s2 = ctx.choice("second", 4)
        if s2 < s1:
            return
        own = [sum(1 for o in scripts[s] if o == "remove") - sum(1 for o in scripts[s] if o == "add") for s in (s1, s2)]
        start = sum(1 for o in own if o > 0)
        for i in range(start):
            c.add_ref()
        extra = ctx.choice("extra", 2)
        for i in range(extra):
            c.add_ref()

        def run(script):
            for o in script:
                c.add_ref() if o == "add" else c.remove_ref()
        ts = [S.spawn(run, scripts[s1]), S.spawn(run, scripts[s2])]
        S.join_all(ts)
        ctx.check(not S.errors, "adding and removing references in several threads does not fail")
        want = start + extra - sum(own)
        ctx.check(c.ref_count == want, "no reference is lost or counted twice")
        if want == 0:
            ctx.check(c.deleted == 1 and c.at == 0, "the object is told exactly once that the last reference is gone")
        elif extra and start == sum(own):
            ctx.check(c.deleted == 0, "the object is not told while there are references")
        ctx.check(c.deleted <= 1, "the object is told at most once")


@harness("C32", quick={"steps": 3}, thorough={"steps": 5},
         bounds="any history of `steps` accesses (value, opt_value, has_value), the function failing on any of its calls, returning any integer or None")
def promise(ctx, M, steps):
    result = None if ctx.pick("none", [False, True]) else ctx.int("result")
    calls = []

    class Oops(Exception):
        pass
    fails = [ctx.pick("fail%d" % i, [False, True]) for i in range(2)]

    def fn():
        calls.append(1)
        if len(calls) <= 2 and fails[len(calls) - 1]:
            raise Oops()
        return result
    p = M.Promise.Promise(fn)
    done = False
    for s in range(steps):
        n = len(calls)
        op = ctx.pick("op%d" % s, ["value", "opt", "has"])
        if op == "value":
            try:
                v = p.value
                ok = True
            except Oops:
                ok = False
            ctx.check(len(calls) == n + (0 if done else 1), "the function is called on first access and not again once it succeeded")
            ctx.check(ok == (done or not (len(calls) <= 2 and fails[len(calls) - 1])), "a failure of the function reaches the caller, and only then")
            if ok:
                done = True
                ctx.check(v is None if result is None else eq(v, result), "the value is what the function returned")
        else:
            got = p.opt_value if op == "opt" else p.has_value
            ctx.check(len(calls) == n, "asking for an optional value never evaluates")
            if op == "opt":
                ctx.check(got is None if not done or result is None else got is not None and eq(got, result), "an optional value is the value if it has been evaluated")
            else:
                ctx.check(got == (done and result is not None), "has_value tells whether there is a value")


@harness("C32", quick={}, bounds="two promises whose functions return values of any of twelve kinds (false, callable, exceptions, promises, collections) or fail up to twice with any of four "
         "kinds of exception; three accesses of each in turn, the function of one perhaps using the other", assumes=STDLIB)
def promised_kinds(ctx, M):
    with Scheduler(ctx, ["Promise"], 0) as (S, M):
        P = M.Promise.Promise

        class Oops(Exception):
            pass

        class Callable:
            def __call__(self):
                return 7
        kinds = [0, False, "", (), [], 0.0, len, Callable(), Oops("x"), Oops, P(lambda: 9), {"a": 1}]
        value = kinds[ctx.choice("value", len(kinds))]
        fails = ctx.choice("fails", 3)
        error = ctx.pick("error", [Oops, StopIteration, AttributeError, KeyboardInterrupt]) if fails else Oops
        nested = ctx.pick("nested", [False, True])
        first, second = [], []

        def f():
            first.append(1)
            return value
        p = P(f)

        def g():
            second.append(1)
            if nested:
                q.opt_value
                p.value
            if len(second) <= fails:
                raise error()
            return "other"
        q = P(g)

        def run():
            for k in range(3):
                try:
                    v = q.value
                    ctx.check(k >= fails and v == "other", "a failure reaches the caller, and the next access tries again")
                except (Oops, StopIteration, AttributeError, KeyboardInterrupt) as e:
                    ctx.check(k < fails and type(e) is error, "a failure reaches the caller, and the next access tries again")
                    ctx.check(q.opt_value is None and not q.has_value, "a failed evaluation leaves no value")
                if not nested and k == 0:
                    ctx.check(not first and p.opt_value is None and not p.has_value, "one promise does not evaluate another")
                    continue
                ctx.check(p.value is value, "the value is exactly what the function returned")
                ctx.check(p.opt_value is value and p.has_value, "an optional value is the value afterwards")
                ctx.check(len(first) == 1, "the function is called once")
            ctx.check(len(second) == fails + 1 if fails < 3 else 3, "the function is called until it succeeds and not again")
        t = S.spawn(run)
        S.join_all([t])
        ctx.check(not S.errors, "accesses do not fail otherwise: %s" % S.errors)


@harness("C32", quick=[{"preemptions": 2, "users": 2, "lookers": 0}, {"preemptions": 2, "users": 1, "lookers": 1}, {"preemptions": 1, "users": 2, "lookers": 1},
                       {"preemptions": 0, "users": 3, "lookers": 1}],
         thorough=[{"preemptions": 3, "users": 2, "lookers": 1}, {"preemptions": 2, "users": 3, "lookers": 1}],
         bounds="`users` threads evaluating and `lookers` looking, the function failing the first time or not; up to `preemptions` involuntary switches", assumes=STDLIB)
def shared_promise(ctx, M, preemptions, users, lookers):
    with Scheduler(ctx, ["Promise"], preemptions) as (S, M):
        calls = []
        fail = ctx.pick("fail", [False, True])

        class Oops(Exception):
            pass

        def fn():
            calls.append(1)
            S.linger()
            if fail and len(calls) == 1:
                raise Oops()
            return 5 if len(calls) == (2 if fail else 1) else 6
        p = M.Promise.Promise(fn)
        got, failed, looks = [], [], []

        def use():
            try:
                got.append(p.value)
            except Oops:
                failed.append(1)

        def look():
            looks.append(p.opt_value)
            looks.append(p.opt_value)
        ts = [S.spawn(use) for i in range(users)] + [S.spawn(look) for i in range(lookers)]
        S.join_all(ts)
        ctx.check(not S.errors, "a promise used in several threads does not fail")
        ctx.check(len(calls) == (2 if fail and users > 1 else 1), "the function is evaluated only once, in one thread")
        ctx.check(got == [5] * (users - 1 if fail else users) and len(failed) == (1 if fail else 0), "every thread gets the same value")
        ctx.check(all(x in (None, 5) for x in looks) and (not looks or looks[0] is None or looks[1] == 5), "an optional value does not go back")


@harness("C28", quick={"steps": 4}, thorough={"steps": 5},
         bounds="any history of `steps` tasks added (adding another when run, or not), performed and cleared")
def task_queue(ctx, M, steps):
    q = M.Process.TaskQueue()
    ran, pending, n = [], [], [0]

    def add(nested):
        k = n[0]
        n[0] += 1

        def task():
            ran.append(k)
            if nested:
                add(False)
        pending.append((k, nested))
        q.put(task)
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["add", "add nested", "perform", "clear"])
        if op.startswith("add"):
            add(op == "add nested")
        else:
            del ran[:]
            now, pending[:] = list(pending), []
            if op == "perform":
                q.perform_tasks()
                ctx.check(ran == [k for k, _ in now], "performing runs exactly the tasks queued before, once each, in order")
            else:
                q.clear_tasks()
                ctx.check(not ran, "cleared tasks are not run")
            ctx.check(q.qsize() == len(pending) and q.unfinished_tasks == len(pending), "tasks run or cleared are done, those queued meanwhile remain")
    del ran[:]
    left = [k for k, _ in pending]
    q.perform_tasks()
    ctx.check(ran == left, "performing runs exactly the tasks queued before, once each, in order")


@harness("C28", quick=[{"tasks": 6}, {"tasks": 40}], thorough=[{"tasks": 12}, {"tasks": 200}],
         bounds="`tasks` tasks in a queue or a set, one of them failing, performing the tasks itself, or clearing them when it is run, or none; the rest performed afterwards")
def many_tasks(ctx, M, tasks):
    kind = ctx.pick("kind", ["queue", "set"])
    what = ctx.pick("what", ["nothing", "perform", "clear", "fail"] if kind == "queue" else ["nothing", "perform", "clear"])
    at = ctx.choice("at", tasks)
    ran = []
    q = M.Process.TaskQueue() if kind == "queue" else M.Process.TaskSet()

    class Oops(Exception):
        pass

    def task(k):
        ran.append(k)
        if k == at:
            if what == "fail":
                raise Oops()
            if what == "perform":
                q.perform_tasks()
            if what == "clear":
                q.clear_tasks() if kind == "queue" else q.clear_task((k + 1) % tasks)
    for k in range(tasks):
        if kind == "queue":
            q.put(lambda k=k: task(k))
        else:
            q.add_task(k % tasks, lambda: ran.append("replaced"))
    if kind == "set":
        for k in range(tasks):
            q.add_task(k, lambda k=k: task(k))
    try:
        q.perform_tasks()
        ctx.check(what != "fail", "a failure of a task reaches the caller")
    except Oops:
        ctx.check(what == "fail" and ran == list(range(at + 1)), "a failure of a task reaches the caller when the tasks before it have been run")
        q.perform_tasks()           # the tasks after it are still queued
    if kind == "queue":
        ctx.check(ran == list(range(tasks if what != "clear" else at + 1)), "performing runs exactly the tasks queued before, once each, in order")
        ctx.check(q.qsize() == 0, "no task is left over")
    else:
        ctx.check(sorted(ran) == list(range(tasks)) if what != "clear" else set(range(tasks)) - {(at + 1) % tasks} <= set(ran) and len(set(ran)) == len(ran),
                  "performing runs exactly the latest task of each key, once")
    n = len(ran)
    q.perform_tasks()
    ctx.check(len(ran) == n, "no task is run twice")


@harness("C28", quick={"steps": 4}, thorough={"steps": 5},
         bounds="any history of `steps` tasks set for one of two keys (adding another when run, or not), cleared and performed")
def task_set(ctx, M, steps):
    ts = M.Process.TaskSet()
    ran, want, n = [], {}, [0]

    def add(key, nested):
        k = n[0]
        n[0] += 1

        def task():
            ran.append(k)
            if nested:
                add("a", False)
        want[key] = k
        ts.add_task(key, task)
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["add", "add nested", "clear", "perform"])
        if op == "perform":
            del ran[:]
            now = dict(want)
            want.clear()
            ts.perform_tasks()
            ctx.check(sorted(ran) == sorted(now.values()), "performing runs exactly the latest task of each key, once")
        else:
            key = ctx.pick("key%d" % s, ["a", "b"])
            if op == "clear":
                ts.clear_task(key)
                want.pop(key, None)
            else:
                add(key, op == "add nested")
    del ran[:]
    now = dict(want)
    ts.perform_tasks()
    ctx.check(sorted(ran) == sorted(now.values()), "performing runs exactly the latest task of each key, once")


class FalsyTask:
    """A task that counts as false and that may equal every other one."""
    def __init__(self, fn, alike):
        self.fn, self.alike = fn, alike

    def __bool__(self):
        return False

    def __eq__(self, other):
        return self is other or self.alike and isinstance(other, FalsyTask)

    def __hash__(self):
        return 1

    def __call__(self):
        self.fn()


@harness("C28", quick={"steps": 4}, thorough={"steps": 6},
         bounds="tasks shared by several keys or queued several times, tasks that are false or equal to one another, keys None, 0, '' and a tuple; any history of `steps` additions and clearings, then performed")
def kinds_of_tasks(ctx, M, steps):
    kind = ctx.pick("kind", ["queue", "set"])
    tasks = ctx.pick("tasks", ["shared", "false", "alike"])
    ran = []
    made = [(lambda k=k: ran.append(k)) if tasks == "shared" else FalsyTask(lambda k=k: ran.append(k), tasks == "alike") for k in range(2)]
    if kind == "queue":
        q, want = M.Process.TaskQueue(), []
        for s in range(steps):
            k = ctx.choice("t%d" % s, 2)
            q.put(made[k])
            want.append(k)
        q.perform_tasks()
        ctx.check(ran == want, "performing runs exactly the tasks queued before, once each, in order")
        return
    ts, want = M.Process.TaskSet(), {}
    keys = [None, 0, "", ("a", 1)][:2 if steps <= 4 else 3] if ctx.pick("keys", ["plain", "other"]) == "plain" else ["", ("a", 1)]
    for s in range(steps):
        key = ctx.pick("key%d" % s, keys)
        k = ctx.choice("t%d" % s, 3)
        if k == 2:
            ts.clear_task(key)
            want.pop(key, None)
        else:
            ts.add_task(key, made[k])
            want[key] = k
    ts.perform_tasks()
    ctx.check(sorted(ran) == sorted(want.values()), "performing runs exactly the latest task of each key, once")
    n = len(ran)
    ts.perform_tasks()
    ctx.check(len(ran) == n, "no task is run twice")


@harness("C28", quick={"preemptions": 1}, thorough={"preemptions": 2},
         bounds="one thread adding two tasks, one adding a task for the same key, one or two performing; up to `preemptions` involuntary switches", assumes=STDLIB)
def shared_task_set(ctx, M, preemptions):
    with Scheduler(ctx, ["Process"], preemptions) as (S, M):
        t = M.Process.TaskSet()
        ran, order = [], []

        def add(*names):
            for n in names:
                t.add_task(n[0], lambda n=n: ran.append(n))
        clears = ctx.pick("third", ["perform", "clear", "add"])
        threads = [S.spawn(add, "a1", "b1"), S.spawn(t.perform_tasks)]
        if clears == "perform":
            threads.append(S.spawn(t.perform_tasks))
        elif clears == "clear":
            threads.append(S.spawn(t.clear_task, "a"))
        else:
            threads.append(S.spawn(add, "c1"))
        S.join_all(threads)
        t.perform_tasks()
        ctx.check(not S.errors, "adding and performing tasks in several threads does not fail")
        ctx.check(ran.count("b1") == 1 and ran.count("a1") in ((0, 1) if clears == "clear" else (1,)) and (clears != "add" or ran.count("c1") == 1),
                  "every task that is not replaced or cleared is run exactly once")


@harness("C28", quick={"preemptions": 1}, thorough={"preemptions": 2},
         bounds="one thread queueing two tasks, two performing or clearing; up to `preemptions` involuntary switches", assumes=STDLIB)
def shared_task_queue(ctx, M, preemptions):
    with Scheduler(ctx, ["Process"], preemptions) as (S, M):
        q = M.Process.TaskQueue()
        ran = []

        def put():
            for n in ("x", "y"):
                q.put(lambda n=n: ran.append(n))
        q.put(lambda: ran.append("w"))
        clears = ctx.pick("third", ["perform", "clear"])
        ts = [S.spawn(put), S.spawn(q.perform_tasks), S.spawn(q.perform_tasks if clears == "perform" else q.clear_tasks)]
        S.join_all(ts)
        q.perform_tasks()
        ctx.check(not S.errors, "queueing and performing tasks in several threads does not fail")
        ctx.check(all(ran.count(n) <= 1 if clears == "clear" else ran.count(n) == 1 for n in "wxy"), "every queued task is run exactly once")
        ctx.check(q.qsize() == 0 and q.unfinished_tasks == 0, "no task is left over")


@harness("C30", quick=[{"preemptions": 1, "workers": 1, "tasks": 2}, {"preemptions": 1, "workers": 2, "tasks": 2}, {"preemptions": 0, "workers": 1, "tasks": 6}, {"preemptions": 0, "workers": 2, "tasks": 4}],
         thorough=[{"preemptions": 3, "workers": 1, "tasks": 2}, {"preemptions": 2, "workers": 2, "tasks": 2}, {"preemptions": 1, "workers": 2, "tasks": 3}],
         bounds="`workers` worker threads, `tasks` functions (the first failing or not) queued before or by another thread while the pool is closed, or waited for; "
                "up to `preemptions` involuntary switches", assumes=STDLIB, path_seconds=30)
def pool(ctx, M, preemptions, workers, tasks):
    with Scheduler(ctx, ["ThreadPool"], preemptions) as (S, M):
        ctx.patch("traceback", "print_exc", lambda *a, **k: None)
        ctx.patch("traceback", "print_stack", lambda *a, **k: None)
        p = M.ThreadPool.ThreadPool()
        started, ended = [], []
        fail = ctx.pick("first fails", [False, True])

        class Oops(Exception):
            pass

        def work(k):
            started.append(k)
            S.sleep(1)   # another thread may run meanwhile, also without being counted as a preemption
            ended.append(k)
            if fail and k == 0:
                raise Oops()
        p.start(workers)
        how = ctx.pick("how", ["wait", "close", "close meanwhile"])

        def add():
            for k in range(tasks):
                p.queue_fn(lambda k=k: work(k))
        if how == "close meanwhile":
            other = S.spawn(add)
        else:
            add()
        if how == "close" and ctx.pick("soon", [True, False]):
            S.sleep(0.5)
        if how == "wait":
            S.block(lambda: len(ended) == tasks, 100)
            S.sleep(1)
            ctx.check(sorted(started) == list(range(tasks)), "every queued function is run exactly once")
        p.close()
        n = list(started)
        ctx.check(sorted(n) == sorted(ended), "when a pool is closed, none of its functions is running")
        p.queue_fn(lambda: work(9))
        if how == "close meanwhile":
            other.join()
        S.sleep(1)
        ctx.check(started == n, "a closed pool runs nothing")
        ctx.check(len(set(started)) == len(started), "no function is run twice")
        ctx.check(all(t.done for t in S.tasks[1:]), "closing a pool ends its threads")
        ctx.check(not S.errors, "no worker thread fails")


@harness("C30", quick={"extra": 2}, thorough={"extra": 12},
         bounds="a pool of the default number of threads or `extra` more, started at once or a second time later, 0 to 2 functions more than threads queued; no involuntary switches, the oldest or the newest thread goes on when one waits", assumes=STDLIB, path_seconds=60)
def wide_pool(ctx, M, extra):
    with Scheduler(ctx, ["ThreadPool"], 0, order=ctx.pick("order", ["oldest", "newest"])) as (S, M):
        p = M.ThreadPool.ThreadPool()
        ran, busy = [], [0, 0]

        def work(k):
            busy[0] += 1
            S.sleep(1)
            busy[0] -= 1
            ran.append(k)
        how = ctx.pick("start", ["default", "more", "again"])
        n = 16 if how == "default" else 16 + extra
        if how == "default":
            p.start()
        elif how == "more":
            p.start(n)
        else:
            p.start(16)
            p.start(extra)
        tasks = n + ctx.choice("more", 3)
        for k in range(tasks):
            p.queue_fn(lambda k=k: work(k))
        S.block(lambda: len(ran) == tasks, 100)
        S.sleep(2)
        ctx.check(sorted(ran) == list(range(tasks)), "every queued function is run exactly once")
        p.close()
        S.sleep(2)
        ctx.check(busy[0] == 0 and len(ran) == tasks, "a closed pool runs nothing")
        ctx.check(all(t.done for t in S.tasks[1:]), "closing a pool ends its threads")
        ctx.check(not S.errors, "no worker thread fails")


@harness("C30", quick={"steps": 3}, thorough={"steps": 5},
         bounds="a pool without threads: any history of `steps` functions queued (failing, queueing another, or plain), run one, run all, close")
def manual_pool(ctx, M, steps):
    ctx.patch("traceback", "print_exc", lambda *a, **k: None)
    ctx.patch("traceback", "print_stack", lambda *a, **k: None)
    M = ctx.fresh_modules()
    p = M.ThreadPool.ThreadPool()
    ran, pending, n, closed = [], [], [0], [False]

    class Oops(Exception):
        pass

    def add(kind):
        k = n[0]
        n[0] += 1

        def fn():
            ran.append(k)
            if kind == "fail":
                raise Oops()
            if kind == "nested":
                add("plain")
        if not closed[0]:
            pending.append((k, kind))
        p.queue_fn(fn)
    for s in range(steps):
        op = ctx.pick("op%d" % s, ["plain", "fail", "nested", "one", "all", "close"])
        del ran[:]
        if op == "one":
            want = [pending.pop(0)[0]] if pending else []
            p.run_one()
            ctx.check(ran == want, "running one runs the oldest function not yet run")
        elif op == "all":
            want = [k for k, kind in pending]
            nested = sum(1 for k, kind in pending if kind == "nested")
            want += range(n[0], n[0] + nested)
            p.run_all()
            pending[:] = []
            ctx.check(ran == want, "running all runs every function queued, also meanwhile, once each and in order")
        elif op == "close":
            p.close()
            closed[0] = True
            pending[:] = []
        else:
            add(op)
        ctx.check(op in ("one", "all") or not ran, "nothing runs by itself")


@harness("C30", quick={"n": 40}, thorough={"n": 200},
         bounds="a pool without threads: n functions queued, one of them (any) failing, queueing another or queueing nothing; all run, or some one by one and then all, or closed")
def long_manual_pool(ctx, M, n):
    ctx.patch("traceback", "print_exc", lambda *a, **k: None)
    ctx.patch("traceback", "print_stack", lambda *a, **k: None)
    M = ctx.fresh_modules()
    p = M.ThreadPool.ThreadPool()
    at, what = ctx.choice("at", n), ctx.pick("what", ["plain", "fail", "nested"])
    ones, end = ctx.pick("ones", [0, 1, n // 2]), ctx.pick("end", ["all", "close"])
    ran = []

    class Oops(Exception):
        pass

    def fn(k):
        ran.append(k)
        if k == at and what == "fail":
            raise Oops()
        if k == at and what == "nested":
            p.queue_fn(lambda: ran.append(n))
    for k in range(n):
        p.queue_fn(lambda k=k: fn(k))
    ctx.check(not ran, "nothing runs by itself")
    for k in range(ones):
        p.run_one()
        ctx.check(ran == list(range(k + 1)), "running one runs the oldest function not yet run")
    if end == "close":
        p.close()
    p.run_all()
    want = list(range(n)) + ([n] if what == "nested" else [])
    ctx.check(ran == (want if end == "all" else want[:ones]), "running all runs every function queued, also meanwhile, once each and in order, unless closed")
    p.run_all()
    p.run_one()
    ctx.check(len(ran) == (len(want) if end == "all" else ones), "no function runs twice")


@harness("C31", quick=[{"preemptions": 2, "ops": 2, "slow": False}, {"preemptions": 1, "ops": 3, "slow": True}, {"preemptions": 0, "ops": 4, "slow": False}],
         thorough=[{"preemptions": 3, "ops": 2, "slow": False}, {"preemptions": 2, "ops": 3, "slow": True}, {"preemptions": 1, "ops": 4, "slow": True}],
         bounds="one thread triggering (waiting or not), sleeping half, one or two intervals, `ops` times; the function failing the first time or not, taking time (`slow`) or not; then closed at once or later; "
                "up to `preemptions` involuntary switches", assumes=STDLIB, path_seconds=30)
def dispatcher(ctx, M, preemptions, ops, slow):
    with Scheduler(ctx, ["ThreadPool"], preemptions) as (S, M):
        ctx.patch("traceback", "print_exc", lambda *a, **k: None)
        ctx.patch("traceback", "print_stack", lambda *a, **k: None)
        starts, ends, times, end_times = [], [], [], []

        class Oops(Exception):
            pass
        fail = ctx.pick("fail", [False, True])
        closed = [False]
        inside = [0]
        bad = []
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def fn():
            if inside[0]:
                bad.append("overlap")
            if closed[0]:
                bad.append("after close")
            inside[0] += 1
            starts.append(tick())
            times.append(S.now)
            S.sleep(0.75) if slow else S.point()
            inside[0] -= 1
            ends.append(tick())
            end_times.append(S.now)
            if fail and len(starts) == 1:
                raise Oops()
        interval = ctx.pick("interval", [0, 1.0])
        d = M.ThreadPool.ThreadDispatcher(fn, interval)
        d.start()
        triggers = []
        for k in range(ops):
            op = ctx.pick("op%d" % k, ["trigger", "wait", "half", "one"]) if k else ctx.pick("op0", ["trigger", "wait"])
            if op == "trigger":
                triggers.append(tick())
                d.trigger()
            elif op == "wait":
                t = tick()
                triggers.append(t)
                d.trigger(wait=True)
                ctx.check(any(e > t for e in ends), "a waiting trigger returns only after the function was run")
            else:
                S.sleep({"half": 0.5, "one": 1.0}[op])
        if ctx.pick("settle", [True, False]):
            S.sleep(5)
            ctx.check(all(any(s > t for s in starts) for t in triggers), "the function is run after every trigger")
        d.close()
        closed[0] = True
        n = len(starts)
        S.sleep(5)
        ctx.check(len(starts) == n and "after close" not in bad and inside[0] == 0, "after closing the function is not running and not run again")
        ctx.check("overlap" not in bad, "the function is never run twice at the same time")
        ctx.check(n <= len(triggers), "the function is not run more often than triggered")
        ctx.check(all(b - a >= interval for a, b in zip(end_times, times[1:])), "runs are at least the minimum interval apart")
        ctx.check(not S.errors and all(t.done for t in S.tasks[1:]), "closing ends the thread")


@harness("C31", quick={"runs": 30}, thorough={"runs": 150},
         bounds="`runs` triggers one after the other, waiting or each left a while, the function failing at any one of them or never; minimum interval or none; then closed", assumes=STDLIB, path_seconds=30)
def long_dispatcher(ctx, M, runs):
    with Scheduler(ctx, ["ThreadPool"], 0) as (S, M):
        S.max_points = 400 * runs
        ctx.patch("traceback", "print_exc", lambda *a, **k: None)
        ctx.patch("traceback", "print_stack", lambda *a, **k: None)
        at, wait, interval = ctx.choice("failing", runs + 1), ctx.pick("wait", [True, False]), ctx.pick("interval", [0, 1.0])
        times = []

        class Oops(Exception):
            pass

        def fn():
            times.append(S.now)
            if len(times) == at + 1:
                raise Oops()
        d = M.ThreadPool.ThreadDispatcher(fn, interval)
        d.start()
        for k in range(runs):
            d.trigger(wait=wait)
            if not wait:
                S.sleep(1.5)
            ctx.check(len(times) == k + 1, "the function is run once after every trigger")
        d.close()
        S.sleep(5)
        ctx.check(len(times) == runs, "after closing the function is not run again")
        ctx.check(all(b - a >= interval for a, b in zip(times, times[1:])), "runs are at least the minimum interval apart")
        ctx.check(not S.errors and all(t.done for t in S.tasks[1:]), "closing ends the thread")


@harness("C31", quick=[{"preemptions": 2}], thorough=[{"preemptions": 3}],
         bounds="two threads triggering and waiting, or one waiting while another closes; up to `preemptions` involuntary switches", assumes=STDLIB, path_seconds=30)
def shared_dispatcher(ctx, M, preemptions):
    with Scheduler(ctx, ["ThreadPool"], preemptions) as (S, M):
        runs = []
        d = M.ThreadPool.ThreadDispatcher(lambda: runs.append(S.now), 0)
        d.start()
        how = ctx.pick("how", ["two", "close"])
        waiting = S.spawn(lambda: d.trigger(wait=True))
        if how == "two":
            d.trigger(wait=True)
            ctx.check(len(runs) >= 1, "a waiting trigger returns only after the function was run")
            waiting.join()
            ctx.check(len(runs) in (1, 2), "the function is not run more often than triggered")
            d.close()
        else:
            d.close()
            waiting.join()
        ctx.check(not S.errors and all(t.done for t in S.tasks[1:]), "closing ends the thread and every waiting trigger")


@harness("C35", quick={"tasks": 30}, thorough={"tasks": 100},
         bounds="`tasks` tasks on a loop, any one of them failing, which finish at once or in any of two orders", assumes=["asyncio's own loop runs on virtual time"])
def close_busy_loop(ctx, M, tasks):
    import asyncio
    from .vloop import VirtualLoop
    loop = VirtualLoop()
    at, order = ctx.choice("failing", tasks), ctx.pick("order", ["at once", "up", "down"])
    finished = []

    class Oops(Exception):
        pass

    async def run(i):
        await asyncio.sleep({"at once": 0, "up": i + 1, "down": tasks - i}[order])
        finished.append(i)
        if i == at:
            raise Oops()
        return i
    ts = [loop.create_task(run(i)) for i in range(tasks)]
    M.Process.close_event_loop(loop)
    ctx.check(loop.is_closed(), "the loop is closed")
    ctx.check(sorted(finished) == list(range(tasks)), "every task has been finished, once")
    ctx.check(all(t.done() and not t.cancelled() and (isinstance(t.exception(), Oops) if i == at else t.exception() is None and t.result() == i) for i, t in enumerate(ts)), "each task keeps its result or failure")


@harness("C35", quick={"tasks": 2}, thorough={"tasks": 3},
         bounds="up to `tasks` tasks on a loop, each finishing at once, after 1 or 2 periods, failing (at once or later), waiting for the one before, for an executor job, or for a task it starts at once; "
                "a default executor or none; any integers as results", assumes=["asyncio's own loop runs on virtual time"])
def close_loop(ctx, M, tasks):
    import asyncio
    from .vloop import VirtualLoop
    loop = VirtualLoop()
    log = []

    class Oops(Exception):
        pass

    class Executor:
        def shutdown(self, wait=True, **kw):
            log.append(("shutdown", wait, loop.is_closed()))
    kinds = ["done", "now", "late", "later", "fail", "late fail", "job", "child"]
    n = ctx.choice("n", tasks + 1)
    ts, finished, children = [], [], []
    value = ctx.int("value")
    executor = ctx.pick("executor", [False, True])
    if executor:
        loop._default_executor = Executor()

    async def child():
        await asyncio.sleep(1)
        finished.append("child")

    async def run(i, kind, before):
        if kind in ("late", "late fail"):
            await asyncio.sleep(1)
        elif kind == "later":
            await asyncio.sleep(2)
        elif kind == "after":
            await asyncio.wait([before])
        elif kind == "job":
            f = loop.create_future()
            loop.call_later(1.5, f.set_result, None)
            await f
        elif kind == "child":
            children.append(loop.create_task(child()))
        elif kind == "now":
            await asyncio.sleep(0)
        finished.append(i)
        if "fail" in kind:
            raise Oops()
        return value
    for i in range(n):
        kind = ctx.pick("kind%d" % i, kinds + (["after"] if i else []))
        ts.append((loop.create_task(run(i, kind, ts[-1][0] if ts else None)), kind))
        if kind == "done":
            loop.advance(0.25)
    M.Process.close_event_loop(loop)
    ctx.check(loop.is_closed(), "the loop is closed")
    ctx.check(sorted(map(str, finished)) == sorted(map(str, list(range(n)) + ["child"] * len(children))), "every task has been finished, once")
    for t, kind in ts:
        ctx.check(t.done() and not t.cancelled(), "no task is cancelled")
        if "fail" in kind:
            ctx.check(isinstance(t.exception(), Oops), "a failing task keeps its failure")
        else:
            ctx.check(t.exception() is None and eq(t.result(), value), "a task has its result")
    waited = [e for e in log if e[1]]
    ctx.check(not log if not executor else len(waited) == 1 and not waited[0][2], "the default executor is shut down, waiting for its jobs, before the loop is closed")
