"""Threads as symbolic schedules.

The real code of nion.utils runs on real threads, but only the one holding the baton runs.  At each
scheduling point -- the first instruction of every source line, every attribute or item store or
deletion and every iteration step of the modules given, and every operation of the stand-ins for
threading, queue and time below -- the running thread may lose the baton.  Where this happens is a
symbolic integer (`pre0`, `pre1`, ...: the number of the point), and which thread continues is a
symbolic choice, so the explorer lets the solver close every schedule with up to `preemptions`
involuntary switches; voluntary switches (blocking, ending) are not bounded.  Time is virtual: it
advances to the next deadline when nobody can run.

The stand-ins are the contract assumed of the standard library: operations of locks, events,
conditions, queues are atomic; wake-up order is any.
"""
from __future__ import annotations

import dis
import gc
import queue as _queue
import sys
import threading as _threading
import types

from . import loader

_TOOL = 3
_SWITCH_OPS = {"STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_SUBSCR", "FOR_ITER", "STORE_GLOBAL"}
_active = None
_instrumented = {}


class Abort(BaseException):
    """Ends a managed thread when the path is over."""


def _codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c)


def _points_of(code):
    out = set()
    last = None
    for ins in dis.get_instructions(code):
        if ins.opname in ("RESUME", "COPY_FREE_VARS", "MAKE_CELL", "CACHE", "RETURN_GENERATOR"):
            continue
        line = ins.positions.lineno if ins.positions else None
        if line is not None and line != last:
            out.add(ins.offset)
            last = line
        if ins.opname in _SWITCH_OPS:
            out.add(ins.offset)
    return out


def _on_instruction(code, offset):
    pts = _instrumented.get(code)
    if pts is None or offset not in pts:
        return sys.monitoring.DISABLE
    s = _active
    if s is not None:
        s.code_point()


def _instrument(modules):
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "verif-sched")
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instruction)
    for m in modules:
        path = loader.REPO + "/nion/utils/" + m + ".py"
        for top in [c for (p, _, _, _), c in loader._code_cache.items() if p == path]:
            for code in _codes(top):
                if code not in _instrumented:
                    _instrumented[code] = _points_of(code) if code is not top else set()
                    mon.set_local_events(_TOOL, code, mon.events.INSTRUCTION)


class _Task:
    def __init__(self, sched, n, thread):
        self.n, self.thread = n, thread
        self.baton = _threading.Semaphore(0)
        self.pred = None          # None: ready; else ready when pred() holds
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.quiet = 0            # >0: no preemption (harness section)


class Scheduler:
    """with Scheduler(ctx, [...modules...], preemptions) as (sched, M): ..."""

    max_points = 4000

    def __init__(self, ctx, modules, preemptions, order=None):
        # order: None, any ready thread may go on when one waits; "oldest" or "newest", that one does
        self.ctx, self.modules, self.bound, self.order = ctx, modules, preemptions, order
        self.tasks = []
        self.by_ident = {}
        self.now = 1000.0
        self.points = 0
        self.used = 0
        self.switches = 0
        self.pre = None
        self.aborting = False
        self.pending = None
        self.errors = []
        self.deadlock = False
        self.trace = []

    # ---- life cycle
    def __enter__(self):
        global _active
        for mod, names in stand_ins(self).items():
            for k, v in names.items():
                self.ctx.patch(mod, k, v)
        M = self.ctx.fresh_modules()
        for m in self.modules:
            getattr(M, m)
        _instrument(self.modules)
        main = _Task(self, 0, None)
        self.main = main
        self.tasks.append(main)
        self.by_ident[_threading.get_ident()] = main
        self.current = main
        self._gc = gc.isenabled()
        gc.disable()
        _active = self
        return self, M

    def __exit__(self, et, ev, tb):
        global _active
        self.aborting = True
        for t in self.tasks[1:]:
            if not t.done:
                t.baton.release()
        for t in self.tasks[1:]:
            if t.thread._real is not None:
                t.thread._real.join(5)
        _active = None
        if self._gc:
            gc.enable()
        return False

    def me(self):
        return self.by_ident.get(_threading.get_ident())

    # ---- scheduling
    def code_point(self):
        me = self.by_ident.get(_threading.get_ident())
        if me is None:
            return
        if self.aborting:
            if me is not self.main:
                raise Abort()
            return
        if me is self.current and not me.quiet:
            self.point()

    def _ready(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or t.timed_out or t.pred():
                out.append(t)
        return out

    def point(self):
        """The running thread may lose the baton here."""
        me = self.me()
        if self.aborting:
            if me is not self.main:
                raise Abort()
            return
        if me is None or me.quiet or len(self.tasks) == 1:
            return
        if self.used >= self.bound:
            self.points += 1
            self._livelock()
            return
        me.quiet += 1
        try:
            others = [t for t in self._ready() if t is not me]
            if not others:
                return
            self.points += 1
            self._livelock()
            if self.pre is None:
                self.pre = self.ctx.int("pre%d" % self.used, 0)
            if not (self.pre == self.points):
                return
            self.used += 1
            self.pre = None
            nxt = others[self._pick(len(others))]
        finally:
            me.quiet -= 1
        self._hand_over(me, nxt)

    def _livelock(self):
        if self.points > self.max_points:
            self.ctx.fail("threads make progress")

    def _pick(self, n):
        if n == 1:
            return 0
        if self.order is not None:
            return 0 if self.order == "oldest" else n - 1
        self.switches += 1
        return self.ctx.choice("next%d" % self.switches, n)

    def _hand_over(self, me, nxt):
        if nxt is me:
            return
        self.current = nxt
        nxt.baton.release()
        if not me.done:
            me.baton.acquire()
            self._resumed(me)

    def _resumed(self, me):
        if self.aborting and me is not self.main:
            raise Abort()
        if me is self.main and self.pending is not None:
            e, self.pending = self.pending, None
            raise e

    def _next_task(self):
        """Somebody to run, advancing time if needed; None at a deadlock."""
        while True:
            ready = self._ready()
            if ready:
                return ready[self._pick(len(ready))]
            timed = [t for t in self.tasks if not t.done and t.deadline is not None]
            if not timed:
                return None
            self.now = max(self.now, min(t.deadline for t in timed))
            for t in timed:
                if t.deadline <= self.now:
                    t.timed_out = True

    def block(self, pred, timeout=None):
        """Wait until pred() holds; False if the timeout came first."""
        me = self.me()
        if self.aborting or me is None:
            if me is None or me is self.main:
                return pred()
            raise Abort()
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        me.pred, me.timed_out = pred, False
        me.deadline = None if timeout is None else self.now + timeout
        me.quiet += 1
        try:
            nxt = self._next_task()
            if nxt is None:
                self._deadlocked(me)
            self._hand_over(me, nxt)
        finally:
            me.quiet -= 1
            r = me.timed_out
            me.pred = me.deadline = None
            me.timed_out = False
        return pred() if r else True

    def _deadlocked(self, me):
        self.deadlock = True
        label = "no deadlock"
        if me is self.main:
            self.ctx.fail(label)
            raise Abort()
        try:
            self.ctx.fail(label)
        except BaseException as e:
            self._forward(me, e)
        raise Abort()

    def _forward(self, me, e):
        """Let the main thread raise e."""
        self.pending = e
        self.main.pred = None
        self.current = self.main
        self.main.baton.release()
        me.baton.acquire()
        raise Abort()

    def thread_body(self, task, fn):
        me = task
        self.by_ident[_threading.get_ident()] = me
        me.baton.acquire()
        try:
            if self.aborting:
                return
            try:
                fn()
            except Abort:
                return
            except Exception as e:
                if type(e).__name__ in ("Unsupported", "Z3Exception"):
                    self._forward(me, e)
                self.errors.append((task.thread, e))
            except BaseException as e:
                self._forward(me, e)
            if self.aborting:
                return
            me.quiet += 1
            me.done = True
            try:
                nxt = self._next_task()
            except BaseException as e:
                me.done = False
                self._forward(me, e)
            if nxt is None:
                # everybody else is blocked for good
                me.done = False
                self._deadlocked(me)
            self.current = nxt
            nxt.baton.release()
        except Abort:
            pass
        finally:
            me.done = True

    # ---- for harnesses
    def linger(self):
        """Taking time: any thread may run meanwhile, or none; not counted as an involuntary switch."""
        me = self.me()
        if me is None or self.aborting:
            return
        me.quiet += 1
        try:
            ready = self._ready()
            nxt = ready[self._pick(len(ready))]
        finally:
            me.quiet -= 1
        self._hand_over(me, nxt)

    def spawn(self, fn, *args):
        t = self.Thread(target=fn, args=args)
        t.daemon = True
        t.start()
        return t

    def join_all(self, threads):
        for t in threads:
            t.join()

    def sleep(self, dt):
        self.block(lambda: False, dt)


def stand_ins(S):
    class Lock:
        def __init__(self):
            self._owner = None

        def acquire(self, blocking=True, timeout=-1):
            S.point()
            me = S.me() or "outside"
            if self._owner is not None:
                if not blocking:
                    return False
                if not S.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    return False
            self._owner = me
            return True

        def release(self):
            if self._owner is None and not S.aborting:
                raise RuntimeError("release unlocked lock")
            self._owner = None
            S.point()

        def locked(self):
            return self._owner is not None

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

        _is_owned = locked

    class RLock:
        def __init__(self):
            self._owner, self._count = None, 0

        def acquire(self, blocking=True, timeout=-1):
            S.point()
            me = S.me() or "outside"
            if self._owner is not me and self._owner is not None:
                if not blocking:
                    return False
                if not S.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    return False
            self._owner = me
            self._count += 1
            return True

        def release(self):
            if self._owner is not (S.me() or "outside"):
                if S.aborting:
                    return
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count == 0:
                self._owner = None
                S.point()

        def _is_owned(self):
            return self._owner is (S.me() or "outside")

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

    class Event:
        def __init__(self):
            self._flag = False

        def is_set(self):
            S.point()
            return self._flag

        isSet = is_set

        def set(self):
            S.point()
            self._flag = True
            self._gen = object()
            for w in getattr(self, "_waiters", ()):
                w[0] = True
            self._waiters = []

        def clear(self):
            S.point()
            self._flag = False

        def wait(self, timeout=None):
            S.point()
            if self._flag:
                return True
            w = [False]
            self._waiters = getattr(self, "_waiters", []) + [w]
            return S.block(lambda: w[0], timeout)

    class Condition:
        def __init__(self, lock=None):
            self._lock = lock if lock is not None else RLock()
            self.acquire, self.release = self._lock.acquire, self._lock.release
            self._waiters = []

        def __enter__(self):
            return self._lock.__enter__()

        def __exit__(self, *a):
            return self._lock.__exit__(*a)

        def wait(self, timeout=None):
            if not self._lock._is_owned():
                raise RuntimeError("cannot wait on un-acquired lock")
            w = [False]
            self._waiters.append(w)
            saved = getattr(self._lock, "_count", 1)
            owner = self._lock._owner
            self._lock._owner = None
            if hasattr(self._lock, "_count"):
                self._lock._count = 0
            r = S.block(lambda: w[0], timeout)
            if not r and w in self._waiters:
                self._waiters.remove(w)
            S.block(lambda: self._lock._owner is None)
            self._lock._owner = owner
            if hasattr(self._lock, "_count"):
                self._lock._count = saved
            return r

        def wait_for(self, predicate, timeout=None):
            end = None if timeout is None else S.now + timeout
            r = predicate()
            while not r:
                if end is not None and S.now >= end:
                    break
                self.wait(None if end is None else end - S.now)
                r = predicate()
            return r

        def notify(self, n=1):
            if not self._lock._is_owned():
                raise RuntimeError("cannot notify on un-acquired lock")
            for w in self._waiters[:n]:
                w[0] = True
            del self._waiters[:n]

        def notify_all(self):
            self.notify(len(self._waiters))

        notifyAll = notify_all

    class Semaphore:
        def __init__(self, value=1):
            self._value = value

        def acquire(self, blocking=True, timeout=None):
            S.point()
            if self._value <= 0:
                if not blocking:
                    return False
                if not S.block(lambda: self._value > 0, timeout):
                    return False
            self._value -= 1
            return True

        def release(self, n=1):
            S.point()
            self._value += n

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self.daemon = bool(daemon)
            self._task = None
            self._real = None
            self.name = name or "Thread-%d" % len(S.tasks)
            self.ident = None

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._task is not None:
                raise RuntimeError("threads can only be started once")
            t = self._task = _Task(S, len(S.tasks), self)
            self.ident = t.n + 1
            self._real = _threading.Thread(target=S.thread_body, args=(t, self.run), daemon=True)
            self._real.start()
            S.tasks.append(t)
            S.point()

        def join(self, timeout=None):
            if self._task is None:
                raise RuntimeError("cannot join thread before it is started")
            if self._task is S.me():
                raise RuntimeError("cannot join current thread")
            S.point()
            S.block(lambda: self._task.done, timeout)

        def is_alive(self):
            return self._task is not None and not self._task.done

        def setDaemon(self, d):
            self.daemon = d

    def current_thread():
        me = S.me()
        return me.thread if me is not None and me.thread is not None else main_thread

    main_thread = Thread(name="MainThread")
    main_thread.ident = 1

    def get_ident():
        me = S.me()
        return me.n + 1 if me is not None else 0

    class Queue:
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            self._init(maxsize)
            self.unfinished_tasks = 0

        def _init(self, maxsize):
            self.queue = []

        def _get(self):
            return self.queue.pop(0)

        def qsize(self):
            S.point()
            return len(self.queue)

        def empty(self):
            S.point()
            return not self.queue

        def full(self):
            S.point()
            return 0 < self.maxsize <= len(self.queue)

        def put(self, item, block=True, timeout=None):
            S.point()
            if 0 < self.maxsize <= len(self.queue):
                if not block or not S.block(lambda: len(self.queue) < self.maxsize, timeout):
                    raise _queue.Full
            self.queue.append(item)
            self.unfinished_tasks += 1

        def get(self, block=True, timeout=None):
            S.point()
            if not self.queue:
                if not block or not S.block(lambda: self.queue, timeout):
                    raise _queue.Empty
            return self._get()

        def put_nowait(self, item):
            self.put(item, False)

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            S.point()
            if self.unfinished_tasks <= 0:
                raise ValueError("task_done() called too many times")
            self.unfinished_tasks -= 1

        def join(self):
            S.point()
            S.block(lambda: self.unfinished_tasks == 0)

    class LifoQueue(Queue):
        def _get(self):
            return self.queue.pop()

    class SimpleQueue(Queue):
        def __init__(self):
            super().__init__()

    def now():
        return S.now

    def sleep(dt):
        S.block(lambda: False, dt)

    S.Thread = Thread
    return {
        "threading": {"Lock": Lock, "RLock": RLock, "Event": Event, "Condition": Condition, "Semaphore": Semaphore,
                      "BoundedSemaphore": Semaphore, "Thread": Thread, "current_thread": current_thread,
                      "currentThread": current_thread, "get_ident": get_ident, "main_thread": lambda: main_thread},
        "queue": {"Queue": Queue, "LifoQueue": LifoQueue, "SimpleQueue": SimpleQueue},
        "time": {"time": now, "monotonic": now, "perf_counter": now, "process_time": now, "sleep": sleep},
    }
