"""P16: JSON requests and responses over a link with any delays."""

import asyncio
from copy import deepcopy
import logging

from harness.vloop import VLoop
import runtimepy.message
from runtimepy.channel.environment.command import ENVIRONMENTS
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.channel.environment import ChannelEnvironment
import runtimepy.net.stream.json
from runtimepy.net.stream.json import JsonMessageConnection
from sx.registry import case

ASSUMPTIONS = ["JSON text round-trips (it is replaced by a store of values)"]
LOG = logging.getLogger("p16")
LOG.disabled = True


class Store:
    """JSON texts by number, so that what they carry can be symbolic."""

    def __init__(self):
        self.items = []

    def dumps(self, data, **_):
        self.items.append(jsonable(data))
        return "%d" % (len(self.items) - 1)

    def loads(self, text):
        return deepcopy(self.items[int(text)])


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def setup(sx):
    if sx.symbolic:
        store = Store()
        runtimepy.message.dumps = store.dumps
        runtimepy.message.loads = store.loads
        runtimepy.net.stream.json.loads = store.loads


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        if str(record.msg).startswith("remote: "):
            self.got.append((record.levelno, record.msg, tuple(record.args or ())))


class End(JsonMessageConnection):
    """One end of a link; what it sends arrives at the other after a delay."""

    def __init__(self, loop, delay, logger=None):
        self.loop, self.delay = loop, delay
        self.peer, self.sent, self.polls, self.fifo = None, [], 0, True
        self.inbox, self.handled = None, []
        self.last = 0
        super().__init__(logger or LOG)

    def _register_handlers(self):
        super()._register_handlers()
        self.basic_handler("note", self.note)

    async def note(self, outbox, inbox):
        self.handled.append(dict(inbox))

    async def poll_handler(self):
        self.polls += 1

    def send_binary(self, data):
        self.sent.append(data)
        at = self.loop.time() + self.delay(len(self.sent) - 1)
        if self.fifo:
            if at < self.last:
                at = self.last
            self.last = at
        self.loop.call_at(at, self.peer.inbox.put_nowait, data)

    async def read(self):
        while True:
            await self.process_binary(await self.inbox.get())


def link(sx, da, db, loop=None, logger=None):
    """Two ends and their loop."""
    setup(sx)
    loop = loop or VLoop()
    ends = End(loop, da), End(loop, db, logger)
    for i, e in enumerate(ends):
        e.peer = ends[1 - i]
        e.inbox = asyncio.Queue()
        loop.create_task(e.read())
    return (loop,) + ends


def go(loop, coro):
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)


@case("P16", [{"n": 3}], thorough=[{"n": 4}], budget=90,
      bounds="3 (thorough 4) requests at once, every delay of every message (in "
      "any order, as datagrams), every payload")
def responses(sx, n):
    """Each request gets the response to it."""
    loop, a, b = link(sx, lambda i: sx.int("da%d" % i, 0, 400),
                      lambda i: sx.int("db%d" % i, 0, 400))
    a.fifo = b.fifo = False
    data = [sx.int("v%d" % i, -100, 100) for i in range(n)]

    async def main():
        return await asyncio.gather(*(a.wait_json({"loopback": {"x": v}}, timeout=1000)
                                      for v in data))

    got = go(loop, main())
    sx.check(got == [{"loopback": {"x": v}} for v in data], "its own response")
    sx.check(len(a.sent) == n and len(b.sent) == n, "one message each way")
    sx.check(not a.ids_waiting and not a.id_responses, "nothing left over")


@case("P16", budget=90, bounds="a request and another after it, every delay of the "
      "responses around the timeout, every payload")
def timeouts(sx):
    """A request fails exactly when its response is late."""
    late = [sx.int("d%d" % i, 0, 50) for i in range(2)]
    loop, a, b = link(sx, lambda i: 0, lambda i: late[i])
    b.fifo = False
    sx.assume(sx.all(late[0] != 30, late[1] != 30))
    data = [sx.int("v%d" % i, -100, 100) for i in range(2)]

    async def main():
        out = []
        for v in data:
            try:
                out.append(await a.wait_json({"loopback": {"x": v}}, timeout=30))
            except AssertionError:
                out.append(None)
        await asyncio.sleep(100)
        return out

    got = go(loop, main())
    for i in range(2):
        if late[i] < 30:
            sx.check(got[i] == {"loopback": {"x": data[i]}}, "its own response")
        else:
            sx.check(got[i] is None, "timed out")
    sx.check(len(a.sent) == 2 and len(b.sent) == 2,
             "a response is never answered, however late")


@case("P16", budget=60, bounds="two requests of each end at once, with identifiers of "
      "different parity, every delay, every payload")
def both_ways(sx):
    """Requests in both directions don't disturb each other."""
    loop, a, b = link(sx, lambda i: sx.int("da%d" % i, 0, 400),
                      lambda i: sx.int("db%d" % i, 0, 400))
    b.curr_id.curr_id += 1
    want, reqs = [], []
    for end, name in ((a, "a"), (b, "b")):
        v = sx.int("v" + name, -100, 100)
        reqs.append(end.wait_json({"loopback": {"x": v, "from": name}},
                                  timeout=1000))
        want.append({"loopback": {"x": v, "from": name}})
    late = sx.int("start", 0, 1000)

    async def later():
        await asyncio.sleep(late)
        return await reqs[1]

    async def main():
        return await asyncio.gather(reqs[0], later())

    sx.check(go(loop, main()) == want, "its own response")


@case("P16", [], [], bounds="a known finding: replayed, not explored")
def crossed(sx):
    """Requests of both ends with the same identifier, at the same time."""
    loop, a, b = link(sx, lambda i: 1, lambda i: 1)
    reqs = [end.wait_json({"loopback": {"from": name}}, timeout=1000)
            for end, name in ((a, "a"), (b, "b"))]

    async def main():
        return await asyncio.gather(*reqs)

    sx.check(go(loop, main()) == [{"loopback": {"from": name}} for name in "ab"],
             "its own response")


@case("P16", budget=60, bounds="both ends' handshakes, every start and delay on a "
      "stream that keeps order")
def handshake(sx):
    """Both ends initialize and learn about each other."""
    delays = [sx.int("da", 0, 1), sx.int("db", 0, 1)]
    loop, a, b = link(sx, lambda i: delays[0], lambda i: delays[1])
    late = sx.int("start", 0, 10)
    a.meta["who"], b.meta["who"] = "a", "b"

    async def later():
        await asyncio.sleep(late)
        return await b.async_init()

    async def main():
        return await asyncio.gather(a.async_init(), later())

    sx.check(go(loop, main()) == [True, True], "initialized")
    sx.check(a.remote_meta["who"] == "b" and b.remote_meta["who"] == "a",
             "metadata of the other end")


KEYS = ["loopback", "note", "zzz", "bb", "keys_ignored"]


@case("P16", budget=60, bounds="every subset of 5 keys, known or not, with or without "
      "an identifier")
def dispatch(sx):
    """Known keys are handled, the others reported, and only with a reason."""
    loop, a, b = link(sx, lambda i: 0, lambda i: 0)
    v = sx.int("v", -100, 100)
    keys = [k for k in KEYS if sx.bool("has " + k)]
    ident = sx.int("id", 1, 9) if sx.bool("has id") else None
    data = {k: {"x": v} for k in keys}
    if "keys_ignored" in data:
        data["keys_ignored"] = ["y"]
    if ident is not None:
        data["__id__"] = ident

    async def main():
        return await b.process_json(data)

    sent = []
    b.send_json = lambda data, addr=None: sent.append((data, addr))
    sx.check(go(loop, main()), "processed")
    want = {}
    if "loopback" in keys:
        want["loopback"] = {"x": v}
    ignored = [k for k in ("bb", "zzz") if k in keys]
    if ignored:
        want["keys_ignored"] = ignored
    if ident is not None:
        want["__id__"] = ident
    sx.check([dict(s[0]) for s in sent] == ([want] if want else []), "response")
    sx.check(b.handled == ([{"x": v}] if "note" in keys else []), "handled once")


@case("P16", budget=60, bounds="up to 3 remote log messages of every level, before "
      "and between two messages")
def remote_logs(sx):
    """A message logged for the other end is logged there once, in order."""
    logger = logging.Logger("p16-remote")
    logger.manager = logging.Manager(logger)  # whatever is disabled elsewhere
    handler = Log()
    logger.addHandler(handler)
    loop, a, b = link(sx, lambda i: sx.int("d%d" % i, 0, 3), lambda i: 0,
                      logger=logger)
    want = []
    for part in range(2):
        for i in range(sx.size("n%d" % part, 0, 2 - part)):
            level = sx.pick("level", [logging.INFO, logging.ERROR])
            args = (part, i) if sx.bool("args") else ()
            msg = "m %d %d" if args else "plain"
            a.stage_remote_log(msg, *args, level=level)
            want.append((level, "remote: " + msg, args))
        a.send_json({"note": {"x": part}})
    loop.run_for(10)
    loop.cancel_all()
    sx.check(handler.got == want, "each once, in order")
    sx.check(b.handled == [{"x": 0}, {"x": 1}], "messages intact")


@case("P16", budget=60, bounds="every loopback count of up to 5")
def polls(sx):
    """A poll is passed back and forth as often as asked, then ends."""
    n = sx.size("n", 0, 5)
    loop, a, b = link(sx, lambda i: 0, lambda i: 0)
    a.send_poll(loopback=n)
    loop.run_for(10)
    loop.cancel_all()
    sx.check(b.polls == n // 2 + 1 and a.polls == (n + 1) // 2, "each end polled")


def env_with(value):
    env = ChannelEnvironment()
    env.int_channel("a", kind="int16", commandable=True)
    env.int_channel("b", kind="int16")
    env.set("a", value)
    env.set("b", value)
    env.finalize()
    return env


COMMANDS = ["set a 7", "set b 7", "set -f b 7", "set a x", "get a", "set q 1",
            "toggle a", "nope"]


@case("P16", budget=60, bounds="8 commands, to the default or another environment or "
      "an unknown one, every value")
def commands(sx):
    """A command does what it would at the other end, with its result."""
    start = sx.int("start", -100, 100)
    loop, a, b = link(sx, lambda i: 0.5, lambda i: 0.5)
    text = sx.pick("command", COMMANDS)
    where = sx.pick("env", ["default", "p16", "unknown"])
    local = ChannelCommandProcessor(env_with(start), LOG)
    b.command.env = env_with(start)
    other = ChannelCommandProcessor(env_with(start), LOG)
    ENVIRONMENTS.data["p16"] = other
    try:
        got = go(loop, a.channel_command(text, environment=where))
    finally:
        del ENVIRONMENTS.data["p16"]
    envs = {"default": b.command.env, "p16": other.env}
    if where == "unknown":
        sx.check(not got.success and bool(got.reason), "reported")
    else:
        want = local.command(text)
        sx.check(got.success == want.success and got.reason == want.reason, "result")
    for name, env in envs.items():
        w = local.env if name == where else env_with(start)
        sx.check(env.values() == w.values(), "its effect and no other")
