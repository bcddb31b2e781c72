"""P20: TFTP transfers over a network that loses, repeats and delays messages."""

import asyncio
import os
from pathlib import Path
import shutil
import tempfile

from harness.p19_tftp import LOG, Protocol, Transport
from harness.vloop import VLoop
from runtimepy.net.udp.tftp import TftpConnection
from runtimepy.net.udp.tftp.enums import TftpErrorCode
from sx.registry import case

ASSUMPTIONS = ["addresses are their own host names",
               "messages have no delay unless they are chosen to (0.3 s, copies 0.2 s:"
               " late copies of requests don't outlive the transfer they began)"]
BLOCK = 2
SERVER, CLIENT, CLIENT2 = ("10.0.0.1", 69), ("10.0.0.2", 1001), ("10.0.0.3", 1002)


class Wire(Transport):
    def __init__(self, net, local, remote):
        super().__init__(local, remote)
        self.net = net

    def sendto(self, data, addr=None):
        self.net.send(self.local, self.remote if addr is None else tuple(addr)[:2],
                      bytes(data))


class Net:
    """Connections, and what happens to the messages between them."""

    def __init__(self, sx, faults=0, kinds=("lost", "twice", "late", "late copy")):
        self.sx, self.loop, self.count, self.down = sx, VLoop(), 0, None
        self.sent, self.last, self.lost = [], 0, None
        self.conns, self.served = {}, []
        self.at = [sx.int("fault%d" % i, 0, 30) for i in range(faults)]
        for a, b in zip(self.at, self.at[1:]):
            sx.assume(a < b)
        self.left = list(enumerate(self.at))
        self.kinds = kinds
        asyncio._set_running_loop(None)
        asyncio._set_running_loop(self.loop)
        self.top = Path(tempfile.mkdtemp(prefix="p20-"))
        for addr, remote in ((SERVER, None), (CLIENT, SERVER), (CLIENT2, SERVER)):
            (self.top / addr[0]).mkdir()
            self.conns[addr] = conn = TftpConnection(Wire(self, addr, remote),
                                                     Protocol())
            conn.logger = LOG
            conn.set_root(self.top / addr[0])
        for a, conn in self.conns.items():
            for b in self.conns:
                end = conn.endpoint(b)
                end.logger = LOG
                end.max_block_size = BLOCK
                if a == SERVER:
                    end.serve_file = self.watch(end.serve_file)
        asyncio._set_running_loop(None)
        self.readers = [self.loop.create_task(c._process_read())
                        for c in self.conns.values()]

    def watch(self, serve):
        async def watched(path):
            result = await serve(path)
            self.served.append(result)
            return result
        return watched

    def file(self, addr, name):
        return self.top / addr[0] / name

    def send(self, src, dst, data):
        i, delays = self.count, [0]
        self.count += 1
        self.last = self.loop.time()
        self.sent.append((src, data))
        if self.down is not None and i >= self.down:
            return
        for fault in list(self.left):
            if self.sx.concrete(fault[1] == i):
                self.left.remove(fault)
                kind = self.sx.pick("kind%d" % fault[0], self.kinds)
                self.lost = i if kind == "lost" else None
                delays = {"lost": [], "twice": [0, 0], "late": [0.3],
                          "late copy": [0, 0.2]}[kind]
        for d in delays:
            q = self.conns[dst]._protocol.queue
            if d:
                self.loop.call_later(d, q.put_nowait, (data, src))
            else:
                q.put_nowait((data, src))

    def do(self, coro):
        return self.loop.run_until_complete(coro)

    def settle(self):
        """Long enough for everything to end."""
        self.loop.run_for(6)
        self.sx.check(self.loop.time() - self.last > 2, "silence in the end")
        self.sx.check(not any(r.done() for r in self.readers), "still processing")
        for conn in self.conns.values():
            for end in conn._endpoints.values():
                self.sx.check(not end.lock.locked(), "nothing in progress")
                self.sx.check(not end.awaiting_acks and not end.awaiting_blocks,
                              "nothing is expected")
            for task in getattr(conn, "_conn_tasks", []):
                self.sx.check(task.done() and not task.cancelled() and
                              task.exception() is None, "no failed task")

    def close(self):
        self.loop.cancel_all()
        asyncio.set_event_loop(None)
        shutil.rmtree(self.top)


def content(tag, size):
    return bytes((tag * 16 + i) % 251 for i in range(size))


def transfer(net, what, tag, size, client=CLIENT, name="f"):
    """A coroutine of a transfer, and what to compare afterwards."""
    data = content(tag, size)
    conn = net.conns[client]
    ours = net.file(client, "our-%s" % name)
    theirs = net.file(SERVER, name)
    if what == "read":
        theirs.write_bytes(data)
        return conn.request_read(ours, name, addr=SERVER), ours, data
    ours.write_bytes(data)
    return conn.request_write(ours, name, addr=SERVER,
                              verify=what == "verify"), theirs, data


WHAT = ["read", "write", "verify"]


@case("P20", [{"faults": 1, "size": 4}], thorough=[{"faults": 2, "size": 5}],
      budget=150,
      bounds="contents of 0 to 4 (thorough 5) bytes in blocks of 2, reads and writes with or "
      "without verification, one message (thorough: two) of any kind lost, repeated, "
      "delayed or repeated late")
def faults(sx, faults, size):
    """A transfer succeeds despite faults, with the right content at both ends."""
    what = sx.pick("what", WHAT)
    net = Net(sx, faults)
    try:
        n = sx.size("size", 0, size)
        if sx.concrete(sx.bool("exists")):
            net.file(SERVER, "f").write_bytes(b"something else")
        coro, path, data = transfer(net, what, 1, n)
        sx.check(net.do(coro), "succeeds")
        sx.check(path.read_bytes() == data, "content")
        net.settle()
        sx.check(path.read_bytes() == data, "the content stays")
        if what != "write":
            sx.check(net.served and net.served[0], "the server knows it succeeded")
        if len(net.left) == faults:
            blocks = n // BLOCK + 1
            for src, opcode in ((SERVER, 3), (CLIENT, 3)):
                got = [d for s, d in net.sent if s == src and d[1] == opcode]
                sends = what != "write" if src == SERVER else what != "read"
                sx.check(len(got) == (blocks if sends else 0), "each block once")
            sx.check(not any(d[1] == 5 for _, d in net.sent), "no errors")
    finally:
        net.close()


@case("P20", [{"size": 4}], thorough=[{"size": 8}], budget=80,
      bounds="contents of 0 to 4 (thorough 8) bytes, the other end gone from any "
      "message on")
def gone(sx, size):
    """A transfer with nobody fails in time, and doesn't harm the next one."""
    what = sx.pick("what", WHAT[:2])
    net = Net(sx)
    try:
        net.down = sx.size("down", 0, 12)
        coro, path, data = transfer(net, what, 1, sx.size("size", 0, size))
        start = net.loop.time()
        if net.do(coro):
            sx.check(path.read_bytes() == data, "content")
        else:
            sx.check(net.loop.time() - start < 2, "gives up in time")
            sx.check(net.count >= net.down, "for a reason")
        net.settle()
        net.down = None
        what = sx.pick("next", WHAT)
        coro, path, data = transfer(net, what, 2, 3, name="g")
        sx.check(net.do(coro), "the next one succeeds")
        sx.check(path.read_bytes() == data, "its content")
        net.settle()
    finally:
        net.close()


@case("P20", [{"size": 2}], thorough=[{"size": 4}], budget=80,
      bounds="two transfers of up to 2 (thorough 4) bytes one right after the other, "
      "one message lost (except a read's last one) or repeated")
def sequence(sx, size):
    """A transfer never delivers another one's content."""
    net = Net(sx, 1, ("lost", "twice"))
    try:
        for i, name in enumerate("fg"):
            what = sx.pick("what%d" % i, WHAT[:2])
            coro, path, data = transfer(net, what, i + 1,
                                        sx.size("size%d" % i, 0, size), name=name)
            ok = net.do(coro)
            if ok:
                sx.check(path.read_bytes() == data, "content")
            sx.check(ok or i == 1, "the first one succeeds")
            if i == 0 and what == "read" and net.lost == net.count - 1:
                net.loop.run_for(3)  # see the case 'stale'
            if len(net.left) == 1:
                sx.check(ok, "without faults, both succeed")
        net.settle()
    finally:
        net.close()


@case("P20", [], [], bounds="one history: a read's last acknowledgement is lost, "
      "and another read is made at once")
def stale(sx):
    net = Net(sx, 1, ("lost",))
    try:
        for i, name in enumerate("fg"):
            coro, path, data = transfer(net, "read", i + 1, 1, name=name)
            sx.check(not net.do(coro) or path.read_bytes() == data, "content")
    finally:
        net.close()


@case("P20", [{"size": 2}], thorough=[{"size": 4}], budget=60,
      bounds="two clients' transfers of up to 2 (thorough 4) bytes at once, the "
      "second one starting after any message of the first, one message lost")
def clients(sx, size):
    """Clients don't get in each other's way."""
    net = Net(sx, 1, ("lost",))
    try:
        runs = []
        for i, client in enumerate((CLIENT, CLIENT2)):
            what = sx.pick("what%d" % i, WHAT[:2])
            runs.append(transfer(net, what, i + 1, sx.size("size%d" % i, 0, size),
                                 client, "fg"[i]))

        async def both():
            return await asyncio.gather(*(r[0] for r in runs))

        for ok, (_, path, data) in zip(net.do(both()), runs):
            sx.check(ok, "succeeds")
            sx.check(path.read_bytes() == data, "content")
        net.settle()
    finally:
        net.close()


@case("P20", budget=60, bounds="up to 2 clients that ask for a file of 4 bytes and are "
      "gone after any message, the server ending at every tenth of a second of 2")
def stopped(sx):
    """A server that ended doesn't go on with what it served."""
    net = Net(sx)
    try:
        net.down = 2 + sx.size("down", 0, 3)
        for i, client in enumerate((CLIENT, CLIENT2)):
            if i == 0 or sx.bool("second"):
                net.file(SERVER, "fg"[i]).write_bytes(content(i, 4))
                asyncio._set_running_loop(net.loop)
                task = net.loop.create_task(net.conns[client].request_read(
                    net.file(client, "our"), "fg"[i], addr=SERVER))
                asyncio._set_running_loop(None)
                del task
        net.loop.run_for(0.05 + 0.1 * sx.size("when", 0, 20))
        net.do(asyncio.sleep(0))
        asyncio._set_running_loop(net.loop)
        net.conns[SERVER].disable("test")
        asyncio._set_running_loop(None)
        count = len([1 for src, _ in net.sent if src == SERVER])
        net.loop.run_for(4)
        sx.check(len([1 for src, _ in net.sent if src == SERVER]) == count,
                 "nothing more is sent")
    finally:
        net.close()


@case("P20", budget=90, bounds="a transfer of 4 bytes either way cancelled at every "
      "tenth of a second of 1, the other end gone from any message on until then, "
      "then another")
def cancelled(sx):
    """A transfer that is cancelled ends, and doesn't harm the next one."""
    net = Net(sx)
    try:
        net.down = sx.size("down", 0, 4)
        what, then = sx.pick("what", WHAT[:2]), sx.pick("then", WHAT[:2])
        coro, _, _ = transfer(net, what, 1, 4)
        asyncio._set_running_loop(net.loop)
        task = net.loop.create_task(coro)
        asyncio._set_running_loop(None)
        net.loop.run_for(0.03 + 0.1 * sx.size("when", 0, 9))
        net.do(asyncio.sleep(0))
        task.cancel()
        net.do(asyncio.wait([task]))
        count = len([1 for src, _ in net.sent if src == CLIENT])
        net.loop.run_for(3)
        sx.check(len([1 for src, _ in net.sent if src == CLIENT]) <= count + 10,
                 "it isn't repeated for ever")
        net.loop.run_for(3)
        net.down = None
        coro, path, data = transfer(net, then, 2, 3, name="g")
        sx.check(net.do(coro), "the next one succeeds")
        sx.check(path.read_bytes() == data, "content")
        net.settle()
    finally:
        net.close()


@case("P20", budget=40, bounds="8 sizes around multiples of 512, both directions")
def blocks(sx):
    """Blocks have 512 bytes, and the last one fewer."""
    net = Net(sx)
    try:
        for conn in net.conns.values():
            for end in conn._endpoints.values():
                end.max_block_size = type(end)(net.top, LOG, end.addr, *[None] * 5
                                               ).max_block_size
        what = sx.pick("what", WHAT)
        n = sx.pick("size", [0, 1, 511, 512, 513, 1023, 1024, 1536])
        coro, path, data = transfer(net, what, 1, n)
        sx.check(net.do(coro), "succeeds")
        sx.check(path.read_bytes() == data, "content")
        want = [512] * (n // 512) + [n % 512]
        for src, sends in ((SERVER, what != "write"), (CLIENT, what != "read")):
            got = [d for s, d in net.sent if s == src and d[1] == 3]
            sx.check([len(d) - 4 for d in got] == (want if sends else []), "sizes")
            sx.check([d[2] * 256 + d[3] for d in got] ==
                     (list(range(1, len(want) + 1)) if sends else []), "numbers")
        net.settle()
    finally:
        net.close()


@case("P20", budget=60, bounds="requests for what doesn't exist, isn't a file or "
      "cannot be opened, one message lost")
def refused(sx):
    """What cannot be served is refused with a reason, and nothing else is affected."""
    net = Net(sx, 1, ("lost",))
    try:
        net.file(SERVER, "d").mkdir()
        what = sx.pick("what", WHAT)
        name = sx.pick("name", ["none", "d", "", ".", "d/../none", "none/f", "x" * 300,
                                "../x"])
        if what != "read":
            sx.assume(name not in ("none", "d/../none"))
        errors = []
        net.conns[CLIENT].error_handlers.append(lambda *a: errors.append(a))
        ours = net.file(CLIENT, "ours")
        ours.write_bytes(b"ours")
        conn = net.conns[CLIENT]
        if what == "read":
            ok = net.do(conn.request_read(ours, name, addr=SERVER))
        else:
            ok = net.do(conn.request_write(ours, name, addr=SERVER,
                                           verify=what == "verify"))
        sx.check(ok is False, "fails")
        sx.check(ours.read_bytes() == b"ours", "our file stays")
        sx.check(errors and all(e[2] == SERVER for e in errors), "told why")
        for e in errors:
            sx.check(e[0] in (TftpErrorCode.FILE_NOT_FOUND,
                              TftpErrorCode.ACCESS_VIOLATION), "the reason")
            sx.check("\x00" not in e[1] and len(e[1]), "a message")
        net.settle()
        sx.check(sorted(os.listdir(net.top)) == sorted(a[0] for a in net.conns) and
                 os.listdir(net.file(SERVER, "")) == ["d"], "no new files")
        coro, path, data = transfer(net, sx.pick("next", WHAT[:1] + WHAT[2:]), 2, 3,
                                    name="g")
        sx.check(net.do(coro), "the next one succeeds")
        sx.check(path.read_bytes() == data, "its content")
    finally:
        net.close()
