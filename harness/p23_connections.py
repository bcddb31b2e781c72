"""P23: the life of a connection, restarts, and the connection manager."""

import asyncio
import http
import logging
import types

from harness.vloop import VLoop
from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.net import connection
from runtimepy.net.connection import Connection
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.server.struct import UiState
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
import runtimepy.net.tcp.connection as tcp
from runtimepy.net.tcp.http import HttpConnection
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.tcp.telnet import BasicTelnet
from runtimepy.net.stream.base import PrefixedMessageConnection
import runtimepy.net.udp.connection as udp
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.util import IPv4Host
from sx.registry import case

ASSUMPTIONS = ["sockets are replaced by recorders; times are whole numbers"]
LOG = logging.getLogger("p23")
LOG.disabled = True


class Conn(Connection):
    """A connection whose every step is scripted."""

    script = {}
    uses_text_tx_queue = True

    def init(self):
        self.rx = asyncio.Queue()
        self.closes, self.disables, self.extra = 0, 0, 0
        self.seen, self.sent, self.log = [], [], []
        self.restart_results = []
        self.busy, self.most = 0, 0
        self.late = False

    async def process(self, **kwargs):
        self.busy += 1
        self.most = max(self.most, self.busy)
        try:
            await super().process(**kwargs)
        finally:
            self.busy -= 1

    async def async_init(self):
        delay, what = self.script.get("init", (0, "ok"))
        await asyncio.sleep(delay)
        if what == "raise":
            raise KeyError("init")
        return what == "ok"

    async def _await_message(self):
        return await self.rx.get()

    async def process_text(self, data):
        self.late = self.late or self.disabled
        self.seen.append(data)
        if data == "raise":
            raise ValueError(data)
        return data != "bad"

    async def process_binary(self, data):
        return await self.process_text(data.decode())

    async def _send_text_message(self, data):
        self.late = self.late or self.disabled
        self.sent.append(data)
        if data == "raise":
            raise ValueError(data)

    _send_binay_message = _send_text_message

    def disable_extra(self):
        self.extra += 1

    async def restart(self):
        self.log.append(asyncio.get_running_loop().time())
        result = self.restart_results.pop(0) if self.restart_results else True
        if result == "raise":
            raise NotImplementedError
        return result

    async def close(self):
        self.closes += 1


def quiet(conn):
    conn.logger = LOG
    return conn


def loop_run(coro, loop=None):
    loop = loop or VLoop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)


EVENTS = ["read bad", "read raise", "read None", "send raise", "stop", "disable",
          "timed"]


@case("P23", [{"init": "ok"}, {"init": "no"}, {"init": "raise"}], budget=120,
      bounds="every pair of 7 events at every time of up to 3, initialisation of "
      "every length of up to 3 that succeeds, fails or raises")
def life(sx, init):
    """A connection runs until the first event that ends it, and is closed once."""
    conn = quiet(Conn(LOG))
    delay = sx.int("delay", 0, 3)
    conn.script = {"init": (delay, init)}
    first, second = sx.pick("first", EVENTS), sx.pick("second", EVENTS[:-1])
    times = [sx.int("t%d" % i, 0, 3) for i in range(2)]
    loop = VLoop()

    async def main():
        stop = asyncio.Event()

        async def event(what, when):
            await asyncio.sleep(when)
            if what.startswith("read"):
                msg = what.split()[1]
                conn.rx.put_nowait(None if msg == "None" else msg)
            elif what == "send raise":
                conn.send_text("raise")
            elif what == "stop":
                stop.set()
            elif what == "disable":
                conn.disable("test")

        timed = times[0] if first == "timed" else None
        task = asyncio.create_task(conn.process(stop_sig=stop, disable_time=timed))
        await asyncio.sleep(0)
        asyncio.create_task(event(first, times[0]))
        asyncio.create_task(event(second, times[1]))
        conn.rx.put_nowait("good")
        await task
        return loop.time()

    end = loop_run(main(), loop)
    want = times[0]
    if times[1] < want:
        want = times[1]
    if init != "ok" and delay < want:
        want = delay
    sx.check(end == want, "ended by the first event, %s" % init)
    sx.check(conn.disabled and conn.disabled_event.is_set(), "disabled")
    sx.check(conn.closes == 1 and conn.extra == 1, "closed once")
    sx.check(conn.exited.is_set(), "exited")
    sx.check(all(t.done() for t in conn._tasks), "no task left")
    sx.check(not conn.late, "nothing handled once disabled")
    sx.check(conn.seen[:1] in ([], ["good"]), "messages in order")
    if init == "ok":
        sx.check(not conn.initialized.is_set(), "not initialized any more")
    sx.check(conn.env.value("enabled") is False, "published")


@case("P23", budget=120, bounds="up to 3 attempts, each succeeding or failing, giving "
      "up after 1 to 3, a stop signal at every time of up to 4")
def restart(sx):
    """Restarting is attempted with growing waits until it works or gives up."""
    conn = quiet(Conn(LOG))
    tries = sx.concrete(sx.int("tries", 0, 3))
    results = [sx.bool("ok%d" % i) for i in range(3)]
    conn.restart_results = list(results)
    when = 1 + 2 * sx.int("stop", 0, 4)
    stopping = sx.bool("stopping")
    loop = VLoop()

    async def main():
        await conn.process(disable_time=1)
        start = loop.time()
        stop = asyncio.Event()

        async def later():
            await asyncio.sleep(when)
            stop.set()

        if stopping:
            asyncio.create_task(later())
        await conn.process(stop_sig=stop, disable_time=1, backoff=ExponentialBackoff(
            interval=2, max_sleep=100, max_tries=tries))
        return start

    start = loop_run(main(), loop)
    want, at, wait, worked = [], start, 0, False
    for i in range(tries):
        if i and stopping and at >= start + when:
            break
        at = at + wait
        want.append(at)
        wait = 2 * 2 ** i
        if results[i]:
            worked = True
            break
    sx.check(len(conn.log) == len(want), "attempts")
    for a, b in zip(conn.log, want):
        sx.check(a == b, "times")
    sx.check(conn.env.value("restarts") == (1 if worked else 0), "restarts")
    sx.check(conn.env.value("restart_attempts") == len(want), "attempts published")
    sx.check(conn.closes >= (2 if worked else 1), "closed again")
    sx.check(conn.disabled, "disabled")


class Transport:
    def __init__(self, peer=True):
        self.peer, self.sent, self.closed = peer, b"", 0

    def get_extra_info(self, name, default=None):
        if name == "peername" and not self.peer:
            return None
        return ("10.0.0.1", 1) if name in ("sockname", "peername") else default

    def write(self, data):
        self.sent = self.sent + data

    def sendto(self, data, addr=None):
        self.to = addr

    def close(self):
        self.closed += 1


def protocol():
    return QueueProtocol()


class Prefixed(TcpConnection, PrefixedMessageConnection):
    def init(self):
        super().init()
        self.got = []

    async def process_single(self, stream, addr=None):
        self.got.append(stream.read())
        return True


class Web(HttpConnection):
    def init(self):
        super().init()
        self.got = []

    async def get_handler(self, response, request, request_data):
        self.got.append((request.target.raw, request_data))


class Tel(BasicTelnet):
    def init(self):
        self.got = []

    async def process_text(self, data):
        self.got.append(data)
        return True


def reconnect(conn, loop, result=None):
    """Restart a connection, with a new transport and protocol."""
    made = result or (Transport(), protocol())

    async def create(callback=None, **_):
        callback(made)
        return made

    async def main():
        old = tcp.try_tcp_transport_protocol
        tcp.try_tcp_transport_protocol = create
        try:
            conn.disable("test")
            await conn._handle_restart()
        finally:
            tcp.try_tcp_transport_protocol = old

    loop.run_until_complete(main())
    return made


@case("P23", [{"kind": "prefixed"}, {"kind": "http"}, {"kind": "telnet"}], budget=120,
      bounds="every part of one message before a restart, then a message of up to 2 "
      "bytes of every content")
def fresh(sx, kind):
    """What was received in part does not affect the stream after a restart."""
    loop = VLoop()
    cls = {"prefixed": Prefixed, "http": Web, "telnet": Tel}[kind]
    conn = quiet(cls(Transport(), protocol()))
    body = sx.bytes("body", 2)
    if kind == "prefixed":
        first = second = b"\x00\x00\x00\x02" + body
        want = [body]
    elif kind == "http":
        sx.assume(body[0] == 0x61)
        second = b"GET /" + b"new HTTP/1.1\r\nContent-Length: 2\r\n\r\n" + body
        first = b"GET /old HTTP/1.1\r\nContent-Length: 9\r\n\r\n" + bytes(9)
        want = [("/new", body)]
    else:
        sx.assume(sx.all(*[sx.all(b >= 0x61, b <= 0x63) for b in body]))
        first, second = b"\xff\xfb\x01" + "\u20ac".encode(), body
        want = None
    cut = sx.size("cut", 0, len(first) - 1)
    loop.run_until_complete(conn.process_binary(first[:cut]))
    conn.got.clear()
    try:
        reconnect(conn, loop)
        sx.check(not conn.disabled, "enabled again")
        loop.run_until_complete(conn.process_binary(second))
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)
    if kind == "telnet":
        sx.check(len(conn.got) == 1 and conn.got[0] == body.decode(), "text")
    else:
        sx.check(len(conn.got) == 1 and conn.got[0] == want[0], "message")


@case("P23", budget=60, bounds="responses expected or given up before a restart, "
      "bodies of 2 bytes")
def answers(sx):
    """A request after a restart gets its own response."""
    loop = VLoop()
    conn = quiet(Web(Transport(), protocol()))
    when = sx.pick("when", ["before", "after", "answered"])
    body = sx.bytes("body", 2)
    reply = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"

    async def ask():
        return await conn.request(RequestHeader(method=http.HTTPMethod.GET, target="/"))

    async def main():
        task = asyncio.create_task(ask())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        if when == "answered":
            await conn.process_binary(reply + b"no")
        elif when == "before":
            task.cancel()
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        return task

    try:
        task = loop.run_until_complete(main())
        made = reconnect(conn, loop)

        async def rest():
            if when == "after":
                task.cancel()
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            new = asyncio.create_task(ask())
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            await conn.process_binary(reply + body)
            return await new

        header, data = loop.run_until_complete(rest())
        sx.check(header.status == 200 and data == body, "its own response")
        sx.check(made[0].sent[:6] == b"GET / ", "sent on the new transport")
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)


@case("P23", budget=60, bounds="the previous transport's end before, during or after a "
      "restart, with or without an error, and the new one's")
def transports(sx):
    """Only the transport in use ends a TCP connection."""
    loop = VLoop()
    old = protocol()
    conn = quiet(TcpConnection(Transport(), old))
    when = sx.pick("when", ["before", "after", "never"])
    exc = sx.pick("exc", [None, OSError("x")])
    ends = sx.bool("ends")
    old.logger = LOG
    if when == "before":
        old.connection_lost(exc)
        sx.check(conn.disabled, "the one in use")
    try:
        new = reconnect(conn, loop)[1]
        new.logger = LOG
        if when == "after":
            old.connection_lost(exc)
        old.data_received(b"old")
        new.data_received(b"new")
        sx.check(not conn.disabled, "still enabled")
        got = loop.run_until_complete(conn._await_message())
        sx.check(got == b"new", "its data")
        if ends:
            new.connection_lost(exc)
        sx.check(conn.disabled == ends, "ended by its transport")
        loop.run_until_complete(conn.close())
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)
    sx.check(conn._transport.closed == 1, "closed the one in use")


class Udp(UdpConnection):
    async def process_datagram(self, data, addr):
        return True


class UdpProtocol:
    conn = logger = None


@case("P23", budget=30, bounds="connected, with an address set, or neither")
def addresses(sx):
    """A UDP connection's remote address survives a restart."""
    kind = sx.pick("kind", ["connected", "set", "none"])
    port = sx.pick("port", [1, 2, 65535])
    conn = quiet(Udp(Transport(kind == "connected"), UdpProtocol()))
    host = IPv4Host("10.0.0.9", port)
    if kind == "set":
        conn.set_remote_address(host)
    made = Transport(kind == "connected"), UdpProtocol()

    async def create(callback=None, **_):
        callback(made)
        return made

    before = conn.remote_address
    loop, old = VLoop(), udp.try_udp_transport_protocol
    udp.try_udp_transport_protocol = create
    try:
        conn.disable("test")
        loop.run_until_complete(conn._handle_restart())
    finally:
        udp.try_udp_transport_protocol = old
        loop.cancel_all()
        asyncio.set_event_loop(None)
    sx.check(not conn.disabled and conn._transport is made[0], "restarted")
    if kind == "none":
        sx.check(conn.remote_address is None, "none")
    else:
        sx.check(conn.remote_address == before, "kept")
        if kind == "set":
            conn.send_text("a")
            sx.check(made[0].to[1] == port, "sent there")
    sx.check(made[1].conn is conn, "protocol")


@case("P23", [{"n": 1}, {"n": 2}], thorough=[{"n": 3}], budget=150,
      bounds="up to 2 (thorough 3) connections arriving and being disabled at every "
      "time of up to 3, with a stop signal at every time of up to 5")
def managed(sx, n):
    """A manager processes what arrives, forgets what ends, and closes the rest."""
    loop = VLoop()
    manager = ConnectionManager()
    manager.logger = LOG
    conns = [quiet(Conn(LOG)) for _ in range(n)]
    comes = [sx.int("come%d" % i, 0, 2) for i in range(n)]
    lasts = [sx.int("last%d" % i, 0, 3) for i in range(n)]
    stop_at = sx.int("stop", 0, 4)

    async def main():
        stop = asyncio.Event()

        async def arrive(conn, when, last):
            await asyncio.sleep(when)
            manager.queue.put_nowait(conn)
            await asyncio.sleep(last)
            conn.rx.put_nowait("bad")

        for conn, when, last in zip(conns, comes, lasts):
            asyncio.create_task(arrive(conn, when, last))

        async def finish():
            await asyncio.sleep(stop_at)
            await asyncio.sleep(0)
            held = list(manager._conns)
            stop.set()
            return held

        held = asyncio.create_task(finish())
        await manager.manage(stop)
        return await held, loop.time()

    held, end = loop_run(main(), loop)
    sx.check(end == stop_at, "stops at once")
    for i, conn in enumerate(conns):
        come, gone = comes[i], comes[i] + lasts[i]
        if come < stop_at:
            sx.check(conn.closes == 1 and conn.disabled and conn.most == 1, "ended")
            if gone < stop_at:
                sx.check(conn not in held, "forgotten")
            if gone > stop_at:
                sx.check(conn in held and conn.initialized.is_set() is False, "held")
        elif come > stop_at:
            sx.check(conn.closes == 0 and not conn.disabled, "not there yet")


@case("P23", [{"first": True}, {"first": False}], budget=150,
      bounds="a connection that ends at every time of up to 3, with every result of 2 "
      "restart attempts, while others arrive at every time of up to 4")
def again(sx, first):
    """A restarting connection is processed by one task at a time."""
    loop = VLoop()
    manager = ConnectionManager()
    manager.logger = LOG
    conn = quiet(Conn(LOG))
    conn.env.set("auto_restart", True)
    conn.restart_results = [first, sx.bool("ok")]
    last = sx.int("last", 0, 2)
    others = [quiet(Conn(LOG)) for _ in range(2)]
    times = [sx.int("other%d" % i, 0, 3) for i in range(2)]

    async def main():
        stop = asyncio.Event()
        manager.queue.put_nowait(conn)
        task = asyncio.create_task(manager.manage(stop))

        async def later(when, call):
            await asyncio.sleep(when)
            call()

        asyncio.create_task(later(last, lambda: conn.rx.put_nowait("bad")))
        for other, when in zip(others, times):
            asyncio.create_task(later(when, lambda o=other:
                                      manager.queue.put_nowait(o)))
        await asyncio.sleep(6)
        up = not conn.disabled
        sx.check(manager.num_connections == 3, "all managed")
        stop.set()
        await task
        return up

    default = connection.ExponentialBackoff
    connection.ExponentialBackoff = lambda: default(interval=1)
    try:
        up = loop_run(main(), loop)
    finally:
        connection.ExponentialBackoff = default
    sx.check(up, "up again")
    sx.check(conn.most == 1, "one task at a time")
    sx.check(conn.env.value("restarts") == 1, "restarted once")
    sx.check(conn.closes == 2, "closed each time")
    for other in others:
        sx.check(other.most == 1 and other.closes == 1, "others")


@case("P23", budget=60, bounds="a connection that ends at every time of up to 2 and "
      "cannot be restarted, or must not be")
def hopeless(sx):
    """A connection that cannot be restarted is given up, not retried for ever."""
    loop = VLoop(max_steps=3000)
    manager = ConnectionManager()
    manager.logger = LOG
    conn = quiet(Conn(LOG))
    auto = sx.bool("auto")
    if auto:
        conn.env.set("auto_restart", True)
    conn.restart_results = ["raise"] * 99
    last = sx.int("last", 0, 2)

    async def main():
        stop = asyncio.Event()
        manager.queue.put_nowait(conn)
        task = asyncio.create_task(manager.manage(stop))
        await asyncio.sleep(last)
        conn.rx.put_nowait("bad")
        await asyncio.sleep(5)
        count = manager.num_connections
        stop.set()
        await task
        return count

    sx.check(loop_run(main(), loop) == 0, "forgotten")
    sx.check(len(conn.log) == (1 if auto else 0), "tried once")
    sx.check(conn.closes == 1, "closed")


@case("P23", budget=60, bounds="up to 3 connections queued when the manager stops, "
      "before or after it starts, up to 2 of them already disabled")
def queued(sx):
    """Connections that were never processed are closed when a manager stops."""
    loop = VLoop()
    manager = ConnectionManager()
    manager.logger = LOG
    n = sx.size("n", 0, 3)
    conns = [quiet(Conn(LOG)) for _ in range(n)]
    early, gone = sx.size("early", 0, n), sx.size("gone", 0, min(n, 2))
    fails = sx.bool("fails")

    async def main():
        stop = asyncio.Event()
        bad = quiet(Conn(LOG))

        async def broken():
            bad.closes += 1
            raise OSError("close")

        if fails:
            bad.close = broken
            manager.queue.put_nowait(bad)
        task = asyncio.create_task(manager.manage(stop))
        for _ in range(8):
            await asyncio.sleep(0)
        for conn in conns[:gone]:
            conn.disable("test")
        for conn in conns[:early]:
            manager.queue.put_nowait(conn)
        stop.set()
        for conn in conns[early:]:
            manager.queue.put_nowait(conn)
        await task
        sx.check(bad.disabled or not fails, "the one processed")
        return loop.time()

    sx.check(loop_run(main(), loop) == 0, "stops at once")
    sx.check(manager.queue.empty(), "none left")
    for conn in conns:
        sx.check(conn.disabled, "disabled")
        sx.check(conn.closes == 1 or conn in conns[:gone], "closed")
    sx.check(not manager._running, "can run again")


class Socket:
    logger = LOG


class Page(RuntimepyWebsocketConnection):
    pass


@case("P23", budget=60, bounds="up to 3 browser connections, each counted or not "
      "before it is disabled, up to twice")
def counted(sx):
    """The number of browser connections is that of those that are open."""
    ui = types.SimpleNamespace(env=ChannelEnvironment(), poller=None)
    ui.env.int_channel("num_connections", "uint8")
    ui.env.finalize()
    old = UiState.singleton
    UiState.singleton = lambda: ui
    try:
        conns = [quiet(Page(Socket())) for _ in range(3)]
        open_ = 0
        for i, conn in enumerate(conns):
            known = sx.bool("known%d" % i)
            if known:
                conn._get_ui()
                open_ += 1
                if sx.bool("twice%d" % i):
                    conn._get_ui()
            if sx.bool("closed%d" % i):
                conn.disable("test")
                conn.disable("again")
                open_ -= 1 if known else 0
            sx.check(ui.env.value("num_connections") == open_, "count")
    finally:
        UiState.singleton = staticmethod(old)
