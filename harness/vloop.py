"""An event loop with virtual time, the same for symbolic and real runs.

Nothing ever waits for real: when no callback is ready, time jumps to the
earliest timer.  A loop with neither is deadlocked, which is reported rather
than waited for.  Ready callbacks run in FIFO order, as asyncio does; times may
be symbolic (comparing them forks).
"""

import asyncio
import collections


class Deadlock(RuntimeError):
    """Nothing will ever run again."""


class Steps(RuntimeError):
    """The loop did not finish within its step bound."""


class VLoop(asyncio.AbstractEventLoop):
    def __init__(self, max_steps=20000):
        self.now = 0
        self.ready = collections.deque()
        self.timers = []
        self.steps = 0
        self.max_steps = max_steps
        self.errors = []
        self.stopping = False
        self._running = False
        self._closed = False
        self.executed = []

    # -- time and callbacks
    def time(self):
        return self.now

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.now + delay, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = VTimer(when, callback, args, self, context)
        self.timers.append(h)
        return h

    def _timer_handle_cancelled(self, handle):
        if handle in self.timers:
            self.timers = [t for t in self.timers if t is not handle]

    # -- tasks
    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None, **kw):
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def run():
            try:
                fut.set_result(func(*args))
            except Exception as exc:  # pylint: disable=broad-except
                fut.set_exception(exc)

        self.call_soon(run)
        return fut

    # -- running
    def is_running(self):
        return self._running

    def is_closed(self):
        return self._closed

    def get_debug(self):
        return False

    def set_debug(self, enabled):
        pass

    def close(self):
        self._closed = True

    def stop(self):
        self.stopping = True

    async def shutdown_asyncgens(self):
        pass

    async def shutdown_default_executor(self, timeout=None):
        pass

    def call_exception_handler(self, context):
        self.errors.append(context)

    def default_exception_handler(self, context):
        self.errors.append(context)

    def get_exception_handler(self):
        return None

    def set_exception_handler(self, handler):
        pass

    def add_signal_handler(self, sig, callback, *args):
        pass

    def remove_signal_handler(self, sig):
        return True

    def set_task_factory(self, factory):
        pass

    def get_task_factory(self):
        return None

    def step(self):
        """Run what is ready, or else advance to the next timer."""
        if not self.ready:
            live = [t for t in self.timers if not t.cancelled()]
            if not live:
                raise Deadlock("nothing left to run")
            first = live[0]
            for t in live[1:]:
                if t.when_ < first.when_:
                    first = t
            if first.when_ > self.now:
                self.now = first.when_
            self.timers = [t for t in live if t is not first]
            self.ready.append(first)
        for _ in range(len(self.ready)):
            h = self.ready.popleft()
            if not h.cancelled():
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Steps("no end within %d steps" % self.max_steps)
                h._run()

    def run_until_complete(self, future):
        prev = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        asyncio._set_running_loop(self)
        self._running = True
        try:
            future = asyncio.ensure_future(future, loop=self)
            while not future.done():
                self.step()
            return future.result()
        finally:
            self._running = False
            asyncio._set_running_loop(prev)

    def run_for(self, duration):
        """Run everything due within some time."""
        self.run_until_complete(asyncio.sleep(duration))

    def drain(self, limit=1000):
        """Run what is ready now, without letting time pass."""
        prev = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        asyncio._set_running_loop(self)
        self._running = True
        try:
            for _ in range(limit):
                if not self.ready:
                    return
                self.step()
            raise Steps("never idle")
        finally:
            self._running = False
            asyncio._set_running_loop(prev)

    run_forever = drain

    def cancel_all(self):
        """Cancel and finish whatever is left."""
        prev = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        asyncio._set_running_loop(self)
        try:
            tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
            for t in tasks:
                t.cancel()
        finally:
            asyncio._set_running_loop(prev)
        self.drain()


class VTimer(asyncio.Handle):
    def __init__(self, when, callback, args, loop, context=None):
        super().__init__(callback, args, loop, context)
        self.when_ = when

    def when(self):
        return self.when_

    def cancel(self):
        if not self.cancelled():
            self._loop._timer_handle_cancelled(self)
        super().cancel()

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other


def run(coro, loop=None):
    """Run a coroutine on a fresh loop."""
    loop = loop or VLoop()
    try:
        return loop.run_until_complete(coro)
    finally:
        asyncio.set_event_loop(None)
