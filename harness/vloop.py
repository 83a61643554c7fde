"""A real asyncio event loop on virtual time: selecting advances the clock instead of waiting."""
import asyncio
import selectors


class _Selector(selectors.BaseSelector):
    def __init__(self, clock):
        self.clock = clock
        self.map = {}

    def register(self, f, events, data=None):
        k = selectors.SelectorKey(f, f if isinstance(f, int) else f.fileno(), events, data)
        self.map[k.fd] = k
        return k

    def unregister(self, f):
        return self.map.pop(f if isinstance(f, int) else f.fileno(), None)

    def modify(self, f, events, data=None):
        return self.register(f, events, data)

    def select(self, timeout=None):
        c = self.clock
        if timeout is None:
            c.idle = True
        elif timeout > 0:
            c.now += timeout
        return []

    def get_map(self):
        return self.map

    def get_key(self, f):
        return self.map[f if isinstance(f, int) else f.fileno()]

    def close(self):
        self.map = {}


class VirtualLoop(asyncio.SelectorEventLoop):
    """advance(dt) runs everything due within dt of virtual time."""

    def __init__(self):
        self.now = 0.0
        self.idle = False
        self.abort = None
        self.jobs = []        # executor jobs not finished: (future, fn, args)
        super().__init__(_Selector(self))
        self.set_exception_handler(lambda loop, context: None)
        self._clock_resolution = 1e-9

    def time(self):
        return self.now

    def create_task(self, coro, **kw):
        async def guard():
            try:
                return await coro
            except asyncio.CancelledError:
                raise
            except Exception:
                raise
            except BaseException as e:      # the end of a symbolic path must not be swallowed by the task
                self.abort = e
                raise
        return super().create_task(guard(), **kw)

    def run_in_executor(self, executor, fn, *args):
        f = self.create_future()
        self.jobs.append((f, fn, args))
        return f

    def finish_job(self, i):
        f, fn, args = self.jobs.pop(i)
        try:
            r = fn(*args)
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(r)
        self.advance(0)

    def advance(self, dt):
        end = self.now + dt
        h = self.call_at(end + 1e-6, self.stop)
        self.run_forever()
        h.cancel()
        self.now = end
        if self.abort is not None:
            e, self.abort = self.abort, None
            raise e

    def shutdown(self):
        for t in asyncio.all_tasks(self):
            t.cancel()
        self.call_soon(self.stop)
        self.run_forever()
        self.close()
