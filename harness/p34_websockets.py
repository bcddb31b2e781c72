"""P34: websocket connections and servers, and what they count."""

import asyncio
import contextlib
import logging

from websockets.exceptions import ConnectionClosedError, ConnectionClosedOK

from harness.p23_connections import loop_run
from harness.vloop import VLoop
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.websocket import connection as web
from runtimepy.net.websocket.connection import WebsocketConnection
import runtimepy.metrics.channel as channel
from sx.registry import case

ASSUMPTIONS = [
    "the websockets package delivers messages whole and in order, raises when a "
    "connection is closed, and closes one when its handler returns",
    "times are whole numbers",
]
LOG = logging.getLogger("p34")
LOG.disabled = True


class Proto:
    """One side of a websocket."""

    logger = LOG

    def __init__(self, slow=0):
        self.queue, self.gone, self.sent = asyncio.Queue(), asyncio.Event(), []
        self.closes, self.slow, self.peer = 0, slow, None
        self.error = ConnectionClosedOK

    def deliver(self, data):
        if not self.gone.is_set():
            self.queue.put_nowait(data)

    def end(self):
        if not self.gone.is_set():
            self.gone.set()
            if self.peer:
                self.peer.end()

    async def recv(self):
        if self.queue.empty() and self.gone.is_set():
            raise self.error(None, None)
        tasks = [asyncio.ensure_future(self.queue.get()),
                 asyncio.ensure_future(self.gone.wait())]
        try:
            await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
        finally:
            for task in tasks[1:] if tasks[0].done() else tasks:
                task.cancel()
        if not tasks[0].done() or tasks[0].cancelled():
            raise self.error(None, None)
        return tasks[0].result()

    async def send(self, data):
        if self.gone.is_set():
            raise self.error(None, None)
        if self.slow:
            await asyncio.sleep(self.slow)
        if self.gone.is_set():
            raise self.error(None, None)
        self.sent.append(data)
        if self.peer:
            self.peer.deliver(data)

    async def close(self):
        self.closes += 1
        self.end()

    async def wait_closed(self):
        await self.gone.wait()


class Conn(WebsocketConnection):
    """A connection that records what it processes."""

    made = []

    def init(self):
        self.logger = LOG
        self.got, self.late = [], False
        self.made.append(self)

    async def process_text(self, data):
        self.got.append(("text", data))
        self.late = self.late or self.disabled
        return data != "bad"

    async def process_binary(self, data):
        self.got.append(("binary", data))
        self.late = self.late or self.disabled
        return True


@contextlib.contextmanager
def still():
    """Metrics don't depend on real time."""
    old = channel._metrics_time_ns
    channel._metrics_time_ns = lambda: 1
    try:
        yield
    finally:
        channel._metrics_time_ns = old


def make(cls=Conn, **kwargs):
    conn = cls(Proto(**kwargs))
    for side in (conn.metrics.tx, conn.metrics.rx):
        side._message_rate_tracker.source = side._kbps_tracker.source = lambda: 1
    return conn


def size(sx, data):
    if isinstance(data, (bytes, bytearray)):
        return len(data)
    total = 0
    for char in data:
        code = ord(char)
        total = total + sx.ite(code < 0x80, 1, sx.ite(
            code < 0x800, 2, sx.ite(code < 0x10000, 3, 4)))
    return total


ENDS = ["remote", "broken", "stop", "disable", "bad"]


@case("P34", [{"n": 1, "end": e} for e in ENDS], [{"n": 2, "end": e} for e in ENDS],
      budget=120,
      bounds="2 messages received and 2 sent, text of up to 2 characters or bytes, at "
      "every time of up to 3, sent at once or in 2 units of time, one of 5 ends at every "
      "time of up to 4")
def messages(sx, n, end):
    """Messages go through whole and in order, and are counted, until the end."""
    loop, conn = VLoop(), make(slow=sx.pick("slow", [0, 2]))
    stop = asyncio.Event()
    when = sx.int("end at", 0, 4)
    incoming, outgoing = [], []
    for i in range(2):
        data = (sx.str("in%d" % i, n, hi=127) if sx.pick("kind%d" % i, [0, 1])
                else sx.bytes("bin%d" % i, n))
        incoming.append((data, sx.int("in at %d" % i, 0, 3) if i else 1))
    kind = sx.pick("out kind", [0, 1])
    for i in range(2):
        data = (sx.str("out%d" % i, n, hi=127) if kind
                else sx.bytes("bout%d" % i, n))
        outgoing.append((data, sx.int("out at %d" % i, 0, 3) if i else 0))
    sx.assume(incoming[1][1] >= 1)
    delivered = []
    proto = conn.protocol

    async def receive():
        for data, at in incoming:
            await asyncio.sleep(at - loop.time() if at > loop.time() else 0)
            if not proto.gone.is_set():
                delivered.append(data)
                proto.deliver(data)

    async def send():
        for data, at in outgoing:
            await asyncio.sleep(at - loop.time() if at > loop.time() else 0)
            (conn.send_text if kind else conn.send_binary)(data)

    async def finish():
        await asyncio.sleep(when)
        if end in ("remote", "broken"):
            proto.error = ConnectionClosedOK if end == "remote" else (
                ConnectionClosedError)
            proto.end()
        elif end == "stop":
            stop.set()
        elif end == "disable":
            conn.disable("test")
        else:
            proto.deliver("bad")

    async def main():
        tasks = [asyncio.create_task(x()) for x in (receive, send, finish)]
        await conn.process(stop_sig=stop)
        ended = loop.time()
        for task in tasks:
            await task
        return ended

    with still():
        sx.check(loop_run(main(), loop) == when, "it ends when it has to")
    got = [x[1] for x in conn.got if not (isinstance(x[1], str)
                                          and sx.eq(x[1], "bad") is True)]
    sx.check(len(got) <= len(delivered), "nothing is received twice")
    for x, y in zip(got, delivered):
        sx.check(sx.eq(x, y), "received in order")
    for name, data in conn.got:
        sx.check(isinstance(data, str) == (name == "text"), "received as what it is")
    sx.check(not conn.late, "nothing is processed after the end")
    for (data, at), i in zip(incoming, range(2)):
        sx.check(sx.implies(at < when, len(got) > i), "received before the end")
    for x, (y, _) in zip(proto.sent, outgoing):
        sx.check(sx.eq(x, y), "sent in order")
    sx.check(len(proto.sent) <= 2, "nothing is sent twice")
    done = 0
    for (data, at), i in zip(outgoing, range(2)):
        done = sx.ite(done > at, done, at) + proto.slow
        sx.check(sx.implies(done < when, len(proto.sent) > i), "sent before the end")
    sx.check(proto.closes == 1, "it is closed once")
    tx, rx = conn.metrics.tx, conn.metrics.rx
    sx.check(tx.messages.value == len(proto.sent), "messages sent are counted")
    total = 0
    for x in proto.sent:
        total = total + size(sx, x)
    sx.check(tx.bytes.value == total, "bytes sent are counted")
    sx.check(sx.all(rx.messages.value >= len(conn.got),
                    rx.messages.value <= len(conn.got) + 1),
             "messages received are counted")
    total = 0
    for _, x in conn.got:
        total = total + size(sx, x)
    if rx.messages.value == len(conn.got):
        sx.check(rx.bytes.value == total, "bytes received are counted")


@case("P34", [{"n": 2}], [{"n": 4}], budget=60, bounds="text of no or any 2 (4) "
      "characters, or bytes")
def counted(sx, n):
    """The bytes of text are those it's encoded in."""
    loop, conn = VLoop(), make()
    stop = asyncio.Event()
    kinds = [sx.pick("kind%d" % i, [0, 1]) for i in range(2)]
    sizes = [sx.pick("size%d" % i, [0, n]) for i in range(2)]
    data = [sx.str("t%d" % i, m, hi=0x10FFFF) if kind else sx.bytes("b%d" % i, m)
            for i, (kind, m) in enumerate(zip(kinds, sizes))]

    async def main():
        conn.protocol.deliver(data[0])
        (conn.send_text if kinds[1] else conn.send_binary)(data[1])
        loop.call_later(1, stop.set)
        await conn.process(stop_sig=stop)

    with still():
        loop_run(main(), loop)
    for side, x in zip((conn.metrics.rx, conn.metrics.tx), data):
        sx.check(side.messages.value == 1, "messages are counted")
        sx.check(side.bytes.value == size(sx, x), "bytes are counted")
    sx.check(sx.eq(conn.got[0][1], data[0]), "received")
    sx.check(sx.eq(conn.protocol.sent[0], data[1]), "sent")


@case("P34", budget=100, bounds="with a manager or not, an initialisation of up to 2 "
      "that works, fails or raises, a peer that closes, a message that ends it or a stop "
      "at every time of up to 5")
def handler(sx):
    """A handler serves its connection until that ends, and not longer."""
    loop, stop = VLoop(), asyncio.Event()
    managed = sx.pick("managed", [False, True])
    manager = ConnectionManager()
    manager.logger = LOG
    init = sx.pick("init", [None, True, False, KeyError])
    first = sx.int("init time", 0, 2)
    with_stop = managed or sx.pick("stops", [False, True])
    end, when = sx.pick("end", ["remote", "bad", "stop"]), sx.int("end at", 0, 5)
    sx.assume(with_stop or end != "stop")
    sx.assume(when != first)
    proto = Proto()
    Conn.made = []

    async def starting(conn):
        await asyncio.sleep(first)
        if init is KeyError:
            raise KeyError("init")
        return init

    async def serve():
        try:
            await Conn.server_handler(
                init=None if init is None else starting,
                stop_sig=stop if with_stop else None,
                manager=manager if managed else None)(proto)
            return "done"
        except KeyError:
            return "raised"
        finally:
            at.append(loop.time())
            # What the websockets package does when the handler returns.
            await proto.close()

    at = []

    async def main():
        manage = asyncio.create_task(manager.manage(stop))
        task = asyncio.create_task(serve())
        await asyncio.sleep(when)
        if end == "remote":
            proto.end()
        elif end == "bad":
            proto.deliver("bad")
        else:
            stop.set()
        proto.deliver("hello")
        result = await task
        await asyncio.sleep(1)
        stop.set()
        await manage
        await asyncio.sleep(0)
        return result

    with still():
        result = loop_run(main(), loop)
    conn = Conn.made[0]
    sx.check(len(Conn.made) == 1 and conn.protocol is proto, "one connection is made")
    start = 0 if init is None else first
    sx.check(result == ("raised" if init is KeyError else "done"),
             "a failing initialisation is told to the server")
    if init in (False, KeyError):
        sx.check(at[0] == start, "a connection that isn't initialised is closed")
        sx.check(conn.got == [], "and isn't processed")
    else:
        expect = sx.ite(when > start, when, start)
        sx.check(at[0] == expect, "the handler returns when the connection ends")
        # A manager that was stopped already doesn't process it.
        unseen = managed and end == "stop" and bool(when < start)
        sx.check(conn.disabled or unseen, "the connection is disabled")
        if bool(when > start) and end != "stop":
            sx.check(conn.got == ([] if end == "remote" else [("text", "bad")]),
                     "what arrives before the end is processed")
    sx.check(proto.gone.is_set(), "nothing is left")


class Server:
    """Stands in for a websockets server."""

    def __init__(self, handler_, loop):
        self.handler, self.loop, self.tasks, self.protos = handler_, loop, [], []

    @property
    def sockets(self):
        return [self]

    def getsockname(self):
        return ("localhost", 8000)

    async def run(self, proto):
        try:
            await self.handler(proto)
        except Exception:  # pylint: disable=broad-except
            pass
        await proto.close()

    def connect(self, late=0):
        server, client = Proto(), Proto()
        server.peer, client.peer = client, server
        self.protos += [server, client]

        async def start():
            await asyncio.sleep(late)
            await self.run(server)

        self.tasks.append(self.loop.create_task(start()))
        return client


@contextlib.contextmanager
def servers(loop, late=0):
    """Replace the functions of the websockets package."""
    made, hosts = [], []

    @contextlib.asynccontextmanager
    async def serve(handler_, **kwargs):
        made.append(Server(handler_, loop))
        made[-1].kwargs = kwargs
        try:
            yield made[-1]
        finally:
            for proto in made[-1].protos[::2]:
                await proto.close()
            for task in made[-1].tasks:
                await task

    @contextlib.asynccontextmanager
    async def connect(uri, **kwargs):
        hosts.append((uri, kwargs))
        proto = made[0].connect(late)
        try:
            yield proto
        finally:
            await proto.close()

    olds = web._serve, web.websockets, web._sockname
    web._serve = serve
    web._sockname = lambda x: x.getsockname()
    web.websockets = type("W", (), {"connect": staticmethod(connect)})
    try:
        with still():
            yield made, hosts
    finally:
        web._serve, web.websockets, web._sockname = olds


@case("P34", budget=60, bounds="a server side that is late by up to 3; up to 3 messages "
      "of either side")
def pair(sx):
    """A pair of connections is connected, until its context ends."""
    loop, late = VLoop(), sx.int("late", 0, 3)
    texts = [sx.str("t%d" % i, 1, hi=0x7FF) for i in range(3)]
    sides = [sx.pick("side%d" % i, [0, 1]) for i in range(3)]
    Conn.made = []
    fails = sx.pick("fails", [False, True])

    async def main():
        try:
            async with Conn.create_pair() as pair_:
                sx.check(pair_[0] is not pair_[1], "two")
                await asyncio.sleep(1)
                for conn in pair_:
                    sx.check(not conn.protocol.gone.is_set(), "they stay open")
                tasks = [asyncio.create_task(x.process()) for x in pair_]
                for text, side in zip(texts, sides):
                    pair_[side].send_text(text)
                await asyncio.sleep(1)
                for i in range(2):
                    ours = [t for t, s in zip(texts, sides) if s != i]
                    got = [x[1] for x in pair_[i].got]
                    sx.check(len(got) == len(ours), "everything arrives")
                    for x, y in zip(got, ours):
                        sx.check(sx.eq(x, y), "in order")
                    sx.check(pair_[i].metrics.rx.messages.value == len(ours), "counted")
                    sx.check(pair_[i].metrics.tx.messages.value == 3 - len(ours),
                             "counted")
                if fails:
                    raise KeyError("test")
        except KeyError:
            sx.check(fails, "expected")
        for task in tasks:
            await task
        for conn in pair_:
            sx.check(conn.disabled and conn.protocol.gone.is_set(), "closed")

    with servers(loop, late):
        loop_run(main(), loop)


@case("P34", budget=100, bounds="up to 3 clients at every time of up to 3, served by an "
      "application that stops at every time of up to 4")
def app(sx):
    """An application serves its clients until it's told to stop."""
    loop, stop = VLoop(), asyncio.Event()
    when = sx.int("stop", 0, 4)
    times = [sx.int("c%d" % i, 0, 3) for i in range(2)]
    refuse = sx.pick("refuse", [None, 0, 1])
    own = sx.pick("own", [False, True])
    quits = sx.pick("quits", [None, 0])
    manager = ConnectionManager()
    manager.logger = LOG
    Conn.made = []
    served = []

    async def init(_):
        return len(Conn.made) - 1 != refuse

    with servers(loop) as (made, _):
        clients = []

        async def client(i):
            await asyncio.sleep(times[i])
            if not stop.is_set():
                proto = made[0].connect()
                clients.append(proto)
                await proto.send("hello")
                if quits == i:
                    await asyncio.sleep(1)
                    proto.end()

        async def main():
            async def end():
                await asyncio.sleep(when)
                open_.append([not x.gone.is_set() for x in clients])
                stop.set()

            open_ = []
            tasks = [asyncio.create_task(x) for x in
                     [client(0), client(1), end()]]
            await Conn.app(stop, init, manager=manager if own else None,
                           serving_callback=served.append, port=0)
            sx.check(loop.time() == when, "it stops when it's told to")
            for task in tasks:
                await task
            return open_[0]

        loop_run(main(), loop)
        sx.check(len(served) == 1 and served[0] is made[0], "it tells when it serves")
        sx.check(made[0].kwargs == {"port": 0}, "it serves where it's told to")
        sx.check(len(Conn.made) == len(clients), "every client is served")
        for i, conn in enumerate(Conn.made):
            if i == refuse:
                sx.check(conn.got == [], "refused")
            sx.check(conn.protocol.gone.is_set(), "closed")
        for i in range(2):
            if len(clients) == 2 and refuse is None and bool(
                    sx.all(times[0] < when, times[1] < when)):
                sx.check(Conn.made[i].got == [("text", "hello")], "served")
        if own:
            sx.check(manager.queue.empty() and not manager._running, "managed")
