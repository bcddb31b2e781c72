"""P24: attempts to connect, retried with exponential backoff."""

import asyncio
import logging
import socket

from harness.vloop import VLoop
from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.tcp.connection import NullTcpConnection
from runtimepy.net.tcp.create import tcp_transport_protocol_backoff
from runtimepy.net.udp.connection import NullUdpConnection
from runtimepy.net.udp.create import udp_transport_protocol_backoff
import runtimepy.net.tcp.create as tcp_create
import runtimepy.net.udp.create as udp_create
import runtimepy.net.util
from sx.registry import case

ASSUMPTIONS = ["sockets are replaced by scripted results; times are whole numbers; "
               "addresses are their own host names"]
LOG = logging.getLogger("p24")
LOG.disabled = True
runtimepy.net.util.hostname = lambda x: x
for mod in (tcp_create, udp_create):
    mod.LOG = LOG


def done(loop):
    loop.cancel_all()
    asyncio.set_event_loop(None)


@case("P24", [{"n": 4}], thorough=[{"n": 7}], budget=120,
      bounds="every interval up to 20 and limit up to 100, the first 4 (thorough 7) "
      "waits, with a reset after any of them")
def waits(sx, n):
    """No wait at first, then twice as long each time, up to the limit."""
    interval, limit = sx.int("interval", 0, 20), sx.int("limit", 0, 100)
    tries = sx.int("tries", 0, n)
    b = ExponentialBackoff(interval=interval, max_sleep=limit, max_tries=tries)
    reset = sx.size("reset", 0, n)
    loop = VLoop()

    async def main():
        at = 0
        for i in range(n):
            if i == reset:
                b.reset()
                at = 0
            sx.check(sx.iff(b.give_up, at >= tries), "give up")
            sx.check(b.attempt == at, "attempts")
            start = loop.time()
            await b.sleep()
            want = interval * 2 ** (at - 1) if at else 0
            want = sx.ite(want > limit, limit, want) if at else 0
            sx.check(loop.time() - start == want, "wait")
            at += 1

    try:
        loop.run_until_complete(main())
    finally:
        done(loop)


ERRORS = [ConnectionRefusedError("r"), ConnectionResetError("x"),
          OSError("Multiple exceptions"), TimeoutError("t"), socket.gaierror(-2, "n"),
          OSError(113, "No route to host")]


BUGS = [KeyError("bug"), ValueError("bug"), RuntimeError("bug")]


class Net(VLoop):
    """A loop whose network is scripted: a list of results and errors."""

    def __init__(self, script, took=0):
        super().__init__()
        self.script, self.calls, self.took = list(script), [], took

    async def endpoint(self, factory, **kwargs):
        self.calls.append((self.time(), kwargs))
        await asyncio.sleep(self.took)
        what = self.script.pop(0)
        if isinstance(what, Exception):
            raise what
        what.kwargs = kwargs
        return what, factory()

    create_connection = create_datagram_endpoint = endpoint


class Transport:
    def __init__(self, peer=("10.0.0.2", 2)):
        self.peer, self.sent = peer, []

    def get_extra_info(self, name, default=None):
        return {"sockname": ("10.0.0.1", 1), "peername": self.peer}.get(name, default)

    def sendto(self, data, addr=None):
        self.sent.append((data, addr))

    def close(self):
        pass


@case("P24", [{"kind": "tcp"}, {"kind": "udp"}], budget=120,
      bounds="up to 3 attempts of every length of up to 2, each working, failing with "
      "one of 6 network errors or with another error, with a limit of up to 3")
def retried(sx, kind):
    """Attempts are made until one works, the limit, or an error of another sort."""
    tries = sx.size("tries", 1, 3)
    took = sx.int("took", 0, 2)
    script, ends = [], []
    for i in range(3):
        end = sx.pick("end%d" % i, ["error", "works", "bug"]) if i < tries else "error"
        ends.append(end)
        script.append(sx.pick("error%d" % i, ERRORS[i::3]) if end == "error" else
                      Transport() if end == "works" else sx.pick("bug", BUGS))
    loop = Net(script, took)
    fn = tcp_transport_protocol_backoff if kind == "tcp" \
        else udp_transport_protocol_backoff
    backoff = ExponentialBackoff(interval=1, max_sleep=100, max_tries=tries)
    error = result = None
    try:
        result = loop.run_until_complete(fn(backoff=backoff, port=5))
    except (AssertionError, *map(type, BUGS)) as exc:
        error = type(exc).__name__
    finally:
        done(loop)
    count = tries
    for i in range(tries):
        if ends[i] != "error":
            count = i + 1
            break
    sx.check(len(loop.calls) == count, "attempts")
    at = 0
    for i in range(count):
        sx.check(loop.calls[i][0] == at, "times")
        sx.check(loop.calls[i][1] == {"port": 5}, "arguments")
        at = at + took + 2 ** i
    if ends[count - 1] == "works":
        sx.check(error is None and result[0] is script[count - 1], "the one that works")
    else:
        sx.check(result is None, "no result")
        sx.check(error == (type(script[count - 1]).__name__
                           if ends[count - 1] == "bug" else
                           "AssertionError"), "error")


@case("P24", budget=60, bounds="3 ways to give addresses, connected or not, with up "
      "to 2 failures, and a restart with up to 2 failures")
def udp(sx):
    """A UDP connection is made, and made again, with the addresses asked for."""
    local, remote = sx.bool("local"), sx.bool("remote")
    connect = sx.pick("connect", [None, True, False])
    kwargs = {}
    if local:
        kwargs["local_addr"] = ("10.0.0.1", 1)
    if remote:
        kwargs["remote_addr"] = ("10.0.0.2", sx.pick("port", [1, 2]))
    given = dict(kwargs)
    if connect is not None:
        kwargs["connect"] = connect
    connected = connect is not False
    peer = given.get("remote_addr") if connected else None
    fails = [ERRORS[0]] * sx.size("fails", 0, 2)
    again = [ERRORS[3]] * sx.size("again", 0, 2)
    made = [Transport(peer), Transport(peer)]
    loop = Net(fails + made[:1] + again + made[1:])

    async def main():
        conn = await NullUdpConnection.create_connection(**kwargs)
        conn.logger = LOG
        first = conn.remote_address
        conn.disable("test")
        await conn._handle_restart(backoff=ExponentialBackoff(interval=1))
        return conn, first

    try:
        conn, first = loop.run_until_complete(main())
    finally:
        done(loop)
    sx.check(len(loop.calls) == len(fails) + len(again) + 2, "attempts")
    for _, call in loop.calls:
        sx.check(call.get("remote_addr") == (given.get("remote_addr") if connected
                                             else None), "remote address")
        if local:
            sx.check(call["local_addr"] == given["local_addr"], "local address")
        elif not connected:
            sx.check(call["local_addr"] == ("0.0.0.0", 0)
                     and call["family"] == socket.AF_INET, "any local address")
        sx.check("connect" not in call, "nothing else")
    want = given.get("remote_addr")
    for addr in (first, conn.remote_address):
        sx.check(addr is None if want is None else
                 (addr.name, addr.port) == want, "known")
    sx.check(not conn.disabled and conn._transport is made[1], "restarted")
    if want:
        conn.send_text("hi")
        sx.check(len(made[1].sent) == 1 and made[1].sent[0][0] == b"hi", "sent")


@case("P24", budget=60, bounds="up to 2 failures, then a restart with up to 2 failures")
def tcp(sx):
    """A TCP connection is made again with what it was made with."""
    fails = [ERRORS[2]] * sx.size("fails", 0, 2)
    again = [ERRORS[4]] * sx.size("again", 0, 2)
    made = [Transport(), Transport(("10.0.0.3", 3))]
    loop = Net(fails + made[:1] + again + made[1:])
    tries = sx.size("tries", 1, 3)

    async def main():
        conn = await NullTcpConnection.create_connection(
            host="h", port=5, backoff=ExponentialBackoff(interval=1))
        conn.logger = LOG
        conn.disable("test")
        await conn._handle_restart(
            backoff=ExponentialBackoff(interval=1, max_tries=tries))
        return conn

    try:
        conn = loop.run_until_complete(main())
    finally:
        done(loop)
    works = tries > len(again)
    sx.check(len(loop.calls) == len(fails) + 1 +
             (len(again) + 1 if works else tries), "attempts")
    for _, call in loop.calls:
        sx.check(call == {"host": "h", "port": 5}, "arguments")
    sx.check(conn.disabled != works, "enabled once restarted")
    sx.check(conn._transport is made[works], "transport")
    sx.check(conn.remote_address.port == (3 if works else 2), "remote address")
    sx.check(conn._protocol.conn is conn, "protocol")
