"""P39: servers, pairs and endpoints, and who receives what is sent to them."""

import asyncio
import logging

from harness.p23_connections import loop_run
from harness.vnet import NetLoop, Sock
from runtimepy.net.arbiter.tcp import TcpConnectionFactory
from runtimepy.net.arbiter.udp import UdpConnectionFactory
from runtimepy.net.manager import ConnectionManager
import runtimepy.metrics.channel as channel
import runtimepy.net.tcp.connection as tcp
from runtimepy.net.tcp.connection import EchoTcpConnection, NullTcpConnection, TcpConnection
import runtimepy.net.tcp.protocol as protocol
import runtimepy.net.udp.connection as udp
from runtimepy.net.udp.connection import EchoUdpConnection, NullUdpConnection, UdpConnection
from runtimepy.net.udp.queue import QueueUdpConnection
from runtimepy.net.util import IPv4Host
from sx.registry import case

ASSUMPTIONS = [
    "the event loop's transports and servers behave as asyncio's are documented to, "
    "on a network that loses nothing; times are whole numbers",
]
LOG = logging.getLogger("p39")
LOG.disabled = True


def setup():
    channel._metrics_time_ns = lambda: 1
    for module in (tcp, udp, protocol):
        module._getLogger = lambda name: LOG
    tcp.LOG = udp.LOG = LOG


class Seen(TcpConnection):
    """A connection that keeps what it received."""

    def init(self):
        self.got, self.processed = [], 0

    async def async_init(self):
        self.processed += 1
        return True

    async def process_binary(self, data):
        self.got.append(data)
        return True

    async def process_text(self, data):
        return False


class Answering(Seen):
    """One that answers everything."""

    async def process_binary(self, data):
        self.send_binary(data)
        return await super().process_binary(data)


def manager():
    made = ConnectionManager()
    made.logger = LOG
    return made


def joined(chunks):
    out = b""
    for chunk in chunks:
        out = out + chunk
    return out


async def settle(count=40):
    for _ in range(count):
        await asyncio.sleep(0)


@case("P39", [{"n": 2}], [{"n": 3}], budget=60,
      bounds="2 (3) clients that connect at every time of up to 3 and accepted after up to "
      "2 iterations, each with a message of 2 bytes of any values in pieces of any size, to "
      "a server with its own manager or one managed elsewhere")
def clients(sx, n):
    """Every client has its own connection, until the server is stopped."""
    setup()
    where = sx.pick("where", ["own", "other"])
    cut = sx.size("cut", 0, 2)
    loop = NetLoop(hops=sx.size("hops", 0, 2),
                   pieces=lambda x: [y for y in (x[:cut], x[cut:]) if len(y)])
    times = [sx.size("at%d" % i, 0, 3) for i in range(n)]
    texts = [sx.bytes("text%d" % i, 2) for i in range(n)]
    calls, served = [], []

    async def main():
        stop = asyncio.Event()
        mine = manager()
        tasks = []
        if where == "other":
            tasks.append(asyncio.ensure_future(mine.manage(stop)))
            await settle(3)
        tasks.append(asyncio.ensure_future(Answering.app(
            stop, callback=calls.append, serving_callback=served.append, manager=mine,
            host="h", port=99)))
        await settle(3)
        sx.check(len(served) == 1 and served[0] is loop.servers[0], "it's serving, once")
        sx.check(loop.served["host"] == "h" and loop.served["port"] == 99, "as asked for")

        async def client(i):
            await asyncio.sleep(times[i])
            conn = await Seen.create_connection(host="h", port=99)
            task = asyncio.ensure_future(conn.process(stop_sig=stop))
            conn.send_binary(texts[i])
            return conn, task

        ours = await asyncio.gather(*(client(i) for i in range(n)))
        await asyncio.sleep(1)
        await settle()
        sx.check(len(calls) == n, "one connection for each")
        for i in range(n):
            conn = ours[i][0]
            theirs = [x for x in calls if x._transport is conn._transport.peer]
            sx.check(len(theirs) == 1, "and its own")
            sx.check(theirs[0].processed == 1 and not theirs[0].disabled, "which is processed")
            sx.check(theirs[0].remote_address == conn.local_address
                     and conn.remote_address == theirs[0].local_address, "with its addresses")
            sx.check(joined(theirs[0].got) == texts[i], "what it sent is received by it")
            sx.check(joined(conn.got) == texts[i], "and the answer by the client")
            sx.check(theirs[0].metrics.rx.bytes.value == 2
                     and theirs[0].metrics.tx.bytes.value == 2
                     and conn.metrics.tx.bytes.value == 2
                     and conn.metrics.rx.bytes.value == 2, "and counted")
        stop.set()
        await asyncio.wait(tasks + [x[1] for x in ours], timeout=9)
        sx.check(all(t.done() and t.exception() is None for t in tasks), "everything ends")
        sx.check(not loop.servers[0].open, "the server too")
        sx.check(all(x.lost for x in loop.streams), "and everything is closed")
        sx.check(all(x.disabled for x in calls), "and disabled")
        sx.reach("ran")

    loop_run(main(), loop)


@case("P39", budget=60, bounds="a client that's accepted up to 12 iterations around the "
      "stop, by a server with its own manager or one managed elsewhere, and another that's "
      "connected already or not")
def late(sx):
    """However late a client connects, a server that's stopped ends with all closed."""
    setup()
    where = sx.pick("where", ["own", "other"])
    before = sx.pick("before", [False, True])
    first, hops = sx.size("first", 0, 6), sx.size("hops", 0, 5)
    loop = NetLoop()

    async def main():
        stop = asyncio.Event()
        mine = manager()
        tasks = []
        if where == "other":
            tasks.append(asyncio.ensure_future(mine.manage(stop)))
            await settle(3)
        tasks.append(asyncio.ensure_future(Answering.app(
            stop, manager=mine, host="h", port=99)))
        await settle(3)
        if before:
            await Seen.create_connection(host="h", port=99)
            await settle(9)
        loop.hops = hops
        made = asyncio.ensure_future(Seen.create_connection(host="h", port=99))
        await settle(first)
        stop.set()
        await asyncio.wait(tasks, timeout=9)
        sx.check(all(t.done() and t.exception() is None for t in tasks), "everything ends")
        near = [x for x in loop.streams if x.server is not None]
        await settle(9)
        sx.check(all(x.lost for x in near), "and every accepted connection is closed")
        sx.reach("accepted" if len(near) > int(before) else "refused")
        made.cancel()

    loop_run(main(), loop)


@case("P39", bounds="2 messages each way of 1 byte of any value, with both ends of 2 kinds, "
      "accepted up to 3 iterations later")
def pairs(sx):
    """The ends of a pair receive what the other one sends."""
    setup()
    kind = sx.pick("kind", [None, Seen, Answering])
    there = [sx.bytes("there%d" % i, 1) for i in range(2)]
    back = [sx.bytes("back%d" % i, 1) for i in range(2)]
    loop = NetLoop(hops=sx.size("hops", 0, 3))

    async def main():
        async with Seen.create_pair(peer=kind) as (server, client):
            sx.check(type(server) is (kind or Seen) and type(client) is Seen, "as asked for")
            sx.check(server._transport.peer is client._transport, "with each other")
            tasks = [asyncio.ensure_future(x.process()) for x in (server, client)]
            for data in there:
                client.send_binary(data)
            for data in back:
                server.send_binary(data)
            await settle()
            sx.check(joined(server.got) == joined(there), "there")
            want = back + (there if kind is Answering else [])
            sx.check(joined(client.got) == joined(want), "and back")
            await server.close()
            await asyncio.wait(tasks, timeout=9)
            sx.check(all(t.done() for t in tasks) and client.disabled and server.disabled,
                     "ends on one side end the other")
        sx.check(all(x.lost for x in loop.streams) and not loop.servers[0].open, "all closed")
        sx.reach("ran")

    loop_run(main(), loop)


@case("P39", bounds="a message of every value to echoing and silent connections of both "
      "kinds, and a text")
def simple(sx):
    """Echoes are what was sent, and nothing comes back from the silent ones."""
    setup()
    data, text = sx.bytes("data", 2), sx.str("text", 2)
    echo = sx.pick("echo", [True, False])
    stream = sx.pick("stream", [True, False])
    loop = NetLoop()

    class Listener(QueueUdpConnection):
        """Something that listens."""

    async def main():
        stop = asyncio.Event()
        if stream:
            kind = EchoTcpConnection if echo else NullTcpConnection
            task = asyncio.ensure_future(kind.app(stop, manager=manager(), host="h", port=1))
            await settle(3)
            conn = await Seen.create_connection(host="h", port=1)
        else:
            kind = EchoUdpConnection if echo else NullUdpConnection
            there = await kind.create_connection(local_addr=("h", 1))
            task = asyncio.ensure_future(there.process(stop_sig=stop))
            conn = await Listener.create_connection(remote_addr=("h", 1))
        mine = asyncio.ensure_future(conn.process(stop_sig=stop))
        await settle(9)
        conn.send_binary(data)
        await settle(20)
        conn.send_text(text)
        await settle(20)
        if stream:
            got = joined(conn.got)
        else:
            got = b""
            while not conn.datagrams.empty():
                got = got + conn.datagrams.get_nowait()[0]
        sx.check(got == (data + text.encode() if echo else b""), "as it was sent")
        sx.check(not conn.disabled, "and it goes on")
        stop.set()
        await asyncio.wait([task, mine], timeout=9)
        sx.check(task.done() and mine.done(), "until it's stopped")
        sx.reach("ran")

    loop_run(main(), loop)


@case("P39", [{"n": 3}], [{"n": 4}], budget=60,
      bounds="3 (4) datagrams of any bytes between 3 endpoints, connected or not")
def datagrams(sx, n):
    """Datagrams arrive whole, once and in order, where they're sent to."""
    setup()
    loop = NetLoop()
    connect = sx.pick("connect", [True, False])
    local = sx.pick("local", [True, False])
    plan = [(sx.pick("from%d" % i, [0, 1, 2]), sx.bytes("data%d" % i, i % 2 + 1))
            for i in range(n)]

    async def main():
        stop = asyncio.Event()
        hub = await QueueUdpConnection.create_connection(local_addr=("h", 7))
        kwargs = {"local_addr": ("h", 20)} if local else {}
        one = await QueueUdpConnection.create_connection(
            remote_addr=("h", 7), connect=connect, **kwargs)
        sx.check((loop.endpoint["remote_addr"] is not None) == connect, "connected if asked")
        sx.check(one.remote_address == IPv4Host("h", 7), "with a destination either way")
        sx.check(not local or loop.endpoint["local_addr"] == ("h", 20), "and where asked")
        two = await QueueUdpConnection.create_connection(remote_addr=("h", 7))
        ends = [hub, one, two]
        tasks = [asyncio.ensure_future(x.process(stop_sig=stop)) for x in ends]
        await settle(9)
        names = [x.local_address.port for x in ends]
        want = [[], [], []]
        for source, data in plan:
            if source:
                ends[source].send_binary(data)
                want[0].append((data, names[source]))
                await settle(9)
                sx.check(hub.latest_rx_address[1] == names[source], "the sender is known")
            else:
                ends[0].sendto(data, addr=("127.0.0.1", names[1]))
                want[1].append((data, names[0]))
                await settle(9)
        for end, expect in zip(ends, want):
            got = []
            while not end.datagrams.empty():
                data, addr = end.datagrams.get_nowait()
                got.append((data, addr[1]))
            sx.check(len(got) == len(expect), "once")
            for (data, port), (data2, port2) in zip(got, expect):
                sx.check(data == data2, "whole, in order")
                sx.check(port == port2, "from who sent it")
            sx.check(end.metrics.rx.messages.value == len(expect), "and counted")
        stop.set()
        await asyncio.wait(tasks, timeout=9)
        sx.check(all(t.done() for t in tasks) and not loop.ends, "all are closed")
        sx.reach("ran")

    loop_run(main(), loop)


class Picky(UdpConnection):
    """An endpoint that doesn't accept everything."""

    async def process_datagram(self, data, addr):
        self.got = getattr(self, "got", []) + [data]
        return bool(data[0] != 7)


@case("P39", bounds="3 datagrams of a byte of any value, one of which isn't accepted")
def refused(sx):
    """A datagram that isn't accepted ends its endpoint, and only that one does."""
    setup()
    loop = NetLoop()
    data = [sx.bytes("data%d" % i, 1) for i in range(3)]

    async def main():
        stop = asyncio.Event()
        one = await Picky.create_connection(local_addr=("h", 7))
        two = await QueueUdpConnection.create_connection(remote_addr=("h", 7))
        tasks = [asyncio.ensure_future(x.process(stop_sig=stop)) for x in (one, two)]
        await settle(9)
        want = []
        for item in data:
            alive = not any(bool(x[0] == 7) for x in want)
            two.send_binary(item)
            await settle(9)
            if alive:
                want.append(item)
            sx.check(joined(one.got) == joined(want), "processed once, until then")
            ended = any(bool(x[0] == 7) for x in want)
            sx.check(one.disabled == ended and tasks[0].done() == ended, "only that ends it")
            if ended:
                break
        stop.set()
        await asyncio.wait(tasks, timeout=9)
        sx.check(all(t.done() for t in tasks) and not loop.ends, "all are closed")
        sx.reach("ran")

    loop_run(main(), loop)


@case("P39", bounds="a datagram of any bytes each way, with one end gone or not")
def endpoints(sx):
    """A pair of endpoints is connected, and ends when the other one is gone."""
    setup()
    loop = NetLoop()
    data, back = sx.bytes("data", 1), sx.bytes("back", 2)
    gone = sx.pick("gone", [False, True])
    socks = []

    def free(local=None, kind=None, reuse=False):
        sx.check(kind == udp._socket.SOCK_DGRAM, "for datagrams")
        socks.append(Sock(("0.0.0.0", 60 + len(socks)), kind))
        return socks[-1]

    udp.get_free_socket = free

    async def main():
        stop = asyncio.Event()
        one, two = await QueueUdpConnection.create_pair()
        sx.check(one.remote_address.port == two.local_address.port
                 and two.remote_address.port == one.local_address.port, "with each other")
        tasks = [asyncio.ensure_future(x.process(stop_sig=stop)) for x in (one, two)]
        await settle(5)
        one.send_binary(data)
        two.send_binary(back)
        await settle(9)
        sx.check(two.datagrams.get_nowait()[0] == data, "there")
        sx.check(one.datagrams.get_nowait()[0] == back, "and back")
        sx.check(one.datagrams.empty() and two.datagrams.empty(), "nothing else")
        if gone:
            two.disable("test")
            await settle(20)
            sx.check(tasks[1].done() and not one.disabled, "only one ends")
            one.send_binary(data)
            await settle(20)
            sx.check(one.disabled and tasks[0].done(), "until the other notices")
        stop.set()
        await asyncio.wait(tasks, timeout=9)
        sx.check(all(t.done() for t in tasks) and not loop.ends, "all are closed")
        sx.reach("gone" if gone else "stopped")

    loop_run(main(), loop)


class Tcp(TcpConnectionFactory[Answering]):
    kind = Answering


class Udp(UdpConnectionFactory[QueueUdpConnection]):
    kind = QueueUdpConnection


@case("P39", bounds="every port, and a server that can't listen")
def factories(sx):
    """Factories make connections and servers of their kind as asked for."""
    setup()
    loop = NetLoop()
    port = sx.pick("port", [1, 99, 65535])
    taken = sx.pick("taken", [False, True])

    async def main():
        stop, started = asyncio.Event(), asyncio.Semaphore(0)
        if taken:
            await loop.create_server(None, host="h", port=port)
        mine = manager()
        task = asyncio.ensure_future(await Tcp().server_task(
            stop, mine, started, host="h", port=port))
        await settle(5)
        sx.check(started.locked() == taken, "started if it's listening")
        sx.check(task.done() == taken, "or failed")
        if taken:
            sx.check(isinstance(task.exception(), OSError), "which isn't hidden")
            return
        conn = await Tcp().client("name", host="h", port=port)
        sx.check(type(conn) is Answering and conn.remote_address == IPv4Host("h", port),
                 "clients connect where asked")
        for call in (Tcp().client("name", "x"), Udp().client("name", 1), Tcp().server_task(
                stop, mine, started, 1)):
            try:
                await call
                sx.fail("only named arguments")
            except AssertionError:
                pass
        end = await Udp().client("name", local_addr=("h", port))
        sx.check(type(end) is QueueUdpConnection and end.local_address.port == port, "both")
        await settle(9)
        sx.check(mine.num_connections == 1, "managed here")
        stop.set()
        await asyncio.wait([task], timeout=9)
        sx.check(task.done(), "ends")
        sx.reach("ran")

    loop_run(main(), loop)


@case("P39", bounds="every port, and a server or a client")
def websockets(sx):
    """Websocket factories serve with the manager, and the options, they're given."""
    from runtimepy.net.arbiter.websocket import WebsocketConnectionFactory
    from runtimepy.net.websocket.connection import WebsocketConnection

    calls = []

    class Kind(WebsocketConnection):
        @classmethod
        async def app(cls, stop_sig, init=None, manager=None, serving_callback=None, **kwargs):
            calls.append((stop_sig, init, manager, kwargs))
            serving_callback(None)

        @classmethod
        async def create_connection(cls, uri, markdown=None, **kwargs):
            return uri, markdown, kwargs

    class Factory(WebsocketConnectionFactory):
        kind = Kind

    port = sx.int("port", 1, 65535)

    async def main():
        stop, started = asyncio.Event(), asyncio.Semaphore(0)
        mine = manager()
        if sx.bool("server"):
            await (await Factory().server_task(stop, mine, started, host="h", port=port))
            sx.check(len(calls) == 1, "served once")
            to, init, by, rest = calls[0]
            sx.check(to is stop and init is None and by is mine, "as it was asked for")
            sx.check(sx.all(len(rest) == 2, rest.get("host") == "h", rest.get("port") == port),
                     "where it was asked for")
            sx.check(not started.locked(), "and started")
        else:
            got = await Factory().client("name", f"ws://h:{1}", markdown="m", extra=port)
            sx.check(sx.all(got[:2] == ("ws://h:1", "m"), got[2]["extra"] == port),
                     "connects where asked")

    loop_run(main())
