"""P25: periodic tasks."""

import asyncio
import logging
import types

from harness.vloop import VLoop
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.parser import ChannelCommand
import runtimepy.metrics.task as metrics
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.net.arbiter.housekeeping import housekeeping
from runtimepy.net.manager import ConnectionManager
from runtimepy.task import AsyncTask, PeriodicTask, PeriodicTaskManager
from sx.registry import case

ASSUMPTIONS = ["times are whole numbers, and events never at the very moment an "
               "iteration starts or ends"]
LOG = logging.getLogger("p25")
LOG.disabled = True


class Task(PeriodicTask):
    """A task whose iterations are scripted."""

    def __init__(self, name="task", script=(), **kwargs):
        super().__init__(name, **kwargs)
        self.logger = LOG
        self.script, self.starts, self.ends = list(script), [], []
        self.extra, self.now, self.most = 0, 0, 0

    async def dispatch(self):
        loop = asyncio.get_running_loop()
        took, result = self.script[len(self.starts) % len(self.script)]
        self.starts.append(loop.time())
        self.now += 1
        self.most = max(self.most, self.now)
        await asyncio.sleep(took)
        self.now -= 1
        self.ends.append(loop.time())
        if result == "raise":
            raise KeyError("dispatch")
        return result

    async def stop_extra(self):
        self.extra += 1


def virtual(main, loop=None):
    """Run something with the clock of its loop."""
    loop = loop or VLoop()
    old = metrics.metrics_time_ns
    metrics.metrics_time_ns = lambda: 1000000000 * loop.time()
    try:
        return loop.run_until_complete(main(loop))
    finally:
        metrics.metrics_time_ns = old
        loop.cancel_all()
        asyncio.set_event_loop(None)


EVENTS = ["disable", "signal", "cancel", "none"]


@case("P25", [{"what": e} for e in EVENTS], budget=150,
      bounds="2 periods, up to 4 iterations of 3 lengths each succeeding, failing or "
      "raising, and an event at every moment of the first 10")
def iterations(sx, what):
    """A task iterates at its period until one fails or it is told to end."""
    period = sx.pick("period", [2, 4])
    script = [(sx.pick("took%d" % i, [0, 2, 6]) if i < 2 else 2,
               sx.pick("end%d" % i, [True, False, "raise"]) if i == 1 else i < 3)
              for i in range(4)]
    at = 1 + 2 * sx.int("at", 0, 7) if what != "none" else 1000
    task = Task(script=script, period_s=period)

    async def main(loop):
        stop = asyncio.Event()
        run = asyncio.create_task(task.run(stop_sig=stop))

        async def event():
            await asyncio.sleep(at)
            if what == "disable":
                task.disable()
            elif what == "signal":
                stop.set()
            elif what == "cancel":
                run.cancel()

        if what != "none":
            asyncio.create_task(event())
        error = None
        try:
            await run
        except (KeyError, asyncio.CancelledError) as exc:
            error = type(exc).__name__
        return loop.time(), error

    end, error = virtual(main)
    now, want, done, cut, raised = 0, [], None, False, None
    for took, result in script:
        # A signal during a sleep is noticed after the next iteration.
        want.append(now)
        if what == "cancel" and at < now + took:
            done, raised = at, "CancelledError"
            break
        if result == "raise":
            done, raised = now + took, "KeyError"
            break
        if result is False or (what in ("disable", "signal") and at < now + took):
            done = now + took
            break
        wake = now + max(period, took)
        if what == "cancel" and at < wake:
            done = at
            break
        if what == "disable" and at < wake:
            done = wake
            break
        now = wake
    sx.check(len(task.starts) == len(want), "iterations")
    for a, b in zip(task.starts, want):
        sx.check(a == b, "times")
    sx.check(done is not None and end == done, "end")
    sx.check(error == raised, "error")
    sx.check(not task._enabled, "not enabled any more")
    sx.check(task.most == 1, "one at a time")
    count = len(want) - (1 if raised else 0)
    sx.check(task.metrics.dispatches.value == count, "counted")
    over = sum(1 for t, _ in script[:count] if t > period)
    sx.check(task.metrics.overruns.value == over, "overruns counted")


@case("P25", budget=120, bounds="paused and resumed at every moment of the first 12, "
      "iterations of 2 lengths, and a change of the period while it runs")
def paused(sx):
    """A paused task does not iterate, and goes on at its period when resumed."""
    took = sx.pick("took", [0, 6])
    pause = 1 + 2 * sx.int("pause", 0, 5)
    length = 2 * sx.int("length", 0, 6)
    period = sx.pick("period", [4, 2])
    task = Task(script=[(took, True)], period_s=4)

    async def main(loop):
        async def change():
            await asyncio.sleep(pause)
            task.paused.value = True
            task.set_period(period)
            await asyncio.sleep(length)
            task.paused.value = False
        asyncio.create_task(change())
        start = loop.steps
        await task.task()
        await asyncio.sleep(26)
        steps = loop.steps - start
        await task.stop()
        return steps

    steps = virtual(main)
    now, want, current = 0, [], 4
    while now < 26:
        run = not (pause < now and now < pause + length)
        if run:
            want.append(now)
        last = took if run else 0
        if pause < now + last:
            current = period
        now = now + max(current, last)
    sx.check(len(task.starts) == len(want), "iterations")
    for a, b in zip(task.starts, want):
        sx.check(a == b, "times")
    sx.check(steps < 200, "waits while paused")


@case("P25", budget=120, bounds="stopped at every moment of the first 8, after up to 2 "
      "iterations of 2 lengths, of which the second works, fails or raises, then "
      "started again")
def again(sx):
    """A stopped or failed task has ended, and can be started again."""
    took = sx.pick("took", [0, 2])
    result = sx.pick("end", [True, False, "raise"])
    at = sx.pick("at", [1, 3, 5, 7, 9])
    during = sx.bool("during")
    sx.assume(sx.any(not during, took == 2))
    task = Task(script=[(took, True), (took, result), (took, True), (took, True),
                        (took, True)], period_s=4)

    async def main(loop):
        sx.check(not await task.stop(), "nothing to stop")
        first = await task.task()
        await asyncio.sleep(at if not during else 5)
        ended = first.done()
        if sx.bool("stop"):
            sx.check(await task.stop(), "stopped")
            sx.check(first.done(), "ended")
            sx.check(not task.disable(), "disabled")
        count, when = len(task.starts), loop.time()
        second = await task.task()
        sx.check(first.done() and not second.done(), "only the second")
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        sx.check(len(task.starts) == count + 1, "starts at once")
        sx.check(task.starts[count] == when, "time")
        await task.stop()
        sx.check(second.done(), "stopped again")
        more = len(task.starts)
        await asyncio.sleep(10)
        sx.check(len(task.starts) == more, "no more")
        return ended, count

    ended, count = virtual(main)
    gone = 4 + took
    moment = 5 if during else at
    if result is not True:
        sx.check(sx.iff(ended, moment > gone), "ended by its iteration")
    sx.check(task.extra == 2 or task.extra == 3, "cleaned up each time")


@case("P25", budget=120, bounds="up to 3 tasks of 2 names with 2 periods, ended in 3 "
      "ways, at every moment of the first 6")
def group(sx):
    """The tasks of a manager are started and stopped together."""
    manager, tasks = PeriodicTaskManager(), []
    for i in range(3):
        name = sx.pick("name%d" % i, ["a", "b"]) if i else "a"
        task = Task(name, script=[(0, True)], period_s=2)
        new = name not in [t.name for t in tasks]
        period = sx.pick("period%d" % i, [None, 4])
        sx.check(manager.register(task, period_s=period) == new, "once per name")
        sx.check(task.period_s.value == (4 if new and period else 2), "period")
        if new:
            tasks.append(task)
    how = sx.pick("how", ["end", "raise", "signal"])
    at = 1 + 2 * sx.int("at", 0, 2)

    async def main(loop):
        stop = asyncio.Event()
        try:
            async with manager.running(stop_sig=stop):
                await asyncio.sleep(at)
                if how == "raise":
                    raise ValueError
                if how == "signal":
                    stop.set()
                    await asyncio.sleep(4)
                    sx.check(all(not t._enabled for t in tasks), "ended by a signal")
        except ValueError:
            pass
        end = loop.time()
        await asyncio.sleep(10)
        return end

    end = virtual(main)
    sx.check(list(manager.tasks) == tasks, "tasks")
    for task in tasks:
        sx.check(manager[task.name] is task and not task._enabled, "stopped")
        want = 1
        p = task.period_s.value
        while p * want < (at if how != "signal" else at + p):
            want += 1
        sx.check(len(task.starts) == want, "iterations")
        sx.check(task.extra == 1, "cleaned up")


class Async(AsyncTask):
    script = ()
    count = 0
    ready = True

    async def init(self, *_, **__):
        await asyncio.sleep(1)
        return self.ready

    async def dispatch(self, *_, **__):
        took, result = self.script[self.count % len(self.script)]
        self.count += 1
        await asyncio.sleep(took)
        return result


@case("P25", budget=120, bounds="disabled, stopped or not at every moment of the first "
      "10, up to 3 iterations of 2 lengths, limits of up to 3 iterations and of 300")
def asynchronous(sx):
    """An asynchronous task iterates until it fails, is disabled or the limit."""
    what = sx.pick("what", ["disable", "signal", "none", "many"])
    limit = sx.size("limit", 0, 3) if what != "many" else 300
    took = sx.pick("took", [0, 4])
    result = sx.bool("result")
    at = 2 * sx.int("at", 0, 4) if what != "many" else 1001
    env = ChannelEnvironment()
    period = 2 if what != "many" else 1
    task = Async("task", period, env, max_iterations=limit)
    task.logger = LOG
    task.ready = sx.bool("ready")
    task.script = [(took, True), (took, True if what == "many" else result),
                   (took, True)]
    end_after = 400

    async def main(loop):
        stop = asyncio.Event()
        run = asyncio.create_task(task.run(stop_sig=stop))

        async def event():
            await asyncio.sleep(at)
            if what == "disable":
                env.set("task.enabled", False)
            else:
                stop.set()

        if what in ("disable", "signal"):
            asyncio.create_task(event())

        async def limiter():
            while task.count < end_after:
                await asyncio.sleep(1)
            task.disable()

        if what == "many":
            asyncio.create_task(limiter())
        else:
            await asyncio.sleep(17)
            task.disable()
        await run
        return loop.time()

    virtual(main)
    # Moments: initialised at 1, then iterations from 1, 1 + max(2, took), ...
    want, now, step = 0, 1, max(period, took)
    if what == "disable" and at < now or not task.ready:
        want = 0
    elif what == "many":
        want = limit
    else:
        while now < 17:
            if what == "disable" and at < now:
                break
            want += 1
            if want == limit or (want == 2 and not result):
                break
            if what == "signal" and at < now + took:
                break
            now += step
    sx.check(task.count == want, "iterations")
    sx.check(task.dispatches.raw.value == want, "counted")
    sx.check(not task.enabled, "not enabled any more")


class Target(AsyncCommandProcessingMixin):
    """Something that commands are queued for."""

    def __init__(self):
        self.outgoing_commands = asyncio.Queue()
        self.handled = []
        self.command = types.SimpleNamespace(
            hooks=[], register_custom_commands=lambda *_: None,
            handle_custom_command=self.custom)

    async def handle_command(self, args, channel):
        await asyncio.sleep(args.took)
        self.handled.append(args.num)
        if args.fails:
            raise args.fails

    async def custom(self, args, channel):
        await self.handle_command(args, channel)


@case("P25", budget=120, bounds="3 commands for 2 targets, of 2 kinds, each working or "
      "failing, with or without a task of a connection that is cancelled")
def housekeeping_(sx):
    """Every queued command is handled once, in order, whatever others do."""
    manager = ConnectionManager()
    task = housekeeping(manager, period_s=1)
    task.logger = LOG
    targets = [Target(), Target()]
    for target in targets:
        del target.outgoing_commands
        target._setup_async_commands()
    task.app = types.SimpleNamespace(connections={"a": targets[0], "x": object()},
                                     tasks={}, structs={"b": targets[1]},
                                     conn_manager=manager)
    want = [[], []]
    for i in range(3):
        who = sx.size("who%d" % i, 0, 1)
        fails = sx.pick("fails%d" % i, [None, TimeoutError("t"), KeyError("k")])
        kind = ChannelCommand.CUSTOM if i == 1 and sx.bool("custom") else ChannelCommand.SET
        targets[who].command.hooks[0](types.SimpleNamespace(
            took=0, num=i, fails=fails, command=kind, remote=False), None)
        want[who].append(i)
    cancelled = sx.bool("cancelled")

    async def main(loop):
        class Conn:
            tasks = []
            metrics = types.SimpleNamespace(poll=lambda time_ns=None: None)
        if cancelled:
            Conn.tasks = [asyncio.create_task(asyncio.sleep(100))]
            manager._conns = [Conn]
            loop.call_soon(Conn.tasks[0].cancel)
        run = await task.task()
        await asyncio.sleep(5)
        sx.check(not run.done(), "still keeping house")
        await task.stop()

    virtual(main)
    for target, nums in zip(targets, want):
        sx.check(target.handled == nums, "handled")
