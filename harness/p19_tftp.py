"""P19: TFTP messages on the wire, well-formed or not."""

import asyncio
import logging

from harness.vloop import VLoop
import runtimepy.net.util
from runtimepy.net.udp.tftp import TftpConnection
from runtimepy.net.udp.tftp.enums import TftpErrorCode
from sx.registry import case

ASSUMPTIONS = ["addresses are their own host names"]
LOG = logging.getLogger("p19")
LOG.disabled = True
ME, PEER, OTHER = ("10.0.0.1", 69), ("10.0.0.2", 69), ("10.0.0.3", 70)
runtimepy.net.util.hostname = lambda x: x


class Transport:
    """Records what is sent where."""

    def __init__(self, local, remote):
        self.local, self.remote, self.sent = local, remote, []

    def sendto(self, data, addr=None):
        to = self.remote if addr is None else (addr[0], addr[1])
        self.sent.append((data, to))

    def get_extra_info(self, name, default=None):
        return {"sockname": self.local, "peername": self.remote}.get(name, default)

    def close(self):
        pass


class Protocol:
    conn = None

    def __init__(self):
        self.queue = asyncio.Queue()


def connection(local=ME, remote=PEER):
    conn = TftpConnection(Transport(local, remote), Protocol())
    conn.logger = LOG
    conn.governed_log = lambda *_, **__: None
    return conn


def got(conn, data, addr=PEER):
    """Give a datagram to a connection."""
    loop = VLoop()
    try:
        return loop.run_until_complete(conn.process_datagram(data, addr))
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)


class Seen:
    """An endpoint's events, recorded instead of acted on."""

    def __init__(self, conn, addr=PEER):
        self.calls = []
        end = conn.endpoint(addr)
        for name in ("handle_read_request", "handle_write_request", "handle_data",
                     "handle_ack", "handle_error"):
            setattr(end, name, self.recorder(name))

    def recorder(self, name):
        def record(*args):
            self.calls.append((name,) + args)
        return record


def u16(v):
    return [v // 256, v % 256]


@case("P19", [{"n": 2}], thorough=[{"n": 4}], budget=60,
      bounds="every message type, block and error code, with names, messages and "
      "data of up to 2 (thorough 4) characters or bytes")
def wire(sx, n):
    """Messages are laid out as in RFC 1350 and arrive as they were sent."""
    conn, peer = connection(), connection(PEER, ME)
    seen = Seen(peer, ME)
    addr = sx.pick("addr", [None, ME[:1] + (70,), OTHER])
    to = PEER if addr is None else addr
    kind = sx.pick("kind", ["rrq", "wrq", "data", "ack", "error"])
    size = sx.size("n", 0, n)
    if kind in ("rrq", "wrq"):
        name = sx.str("name", size, alphabet="a/\u20ac")
        mode = sx.pick("mode", ["octet", "netascii"])
        getattr(conn, "send_" + kind)(name, mode, addr=addr)
        want = bytes([0, 1 if kind == "rrq" else 2]) + name.encode() + b"\x00" \
            + mode.encode() + b"\x00"
        call = ("handle_%s_request" % ("read" if kind == "rrq" else "write"), name,
                mode)
    elif kind == "data":
        block = sx.int("block", 0, 65535)
        data = sx.bytes("data", size)
        conn.send_data(block, data, addr=addr)
        want = b"\x00\x03" + block.to_bytes(2, "big") + data
        call = ("handle_data", block, data)
    elif kind == "ack":
        block = sx.int("block", 0, 65535)
        conn.send_ack(block, addr=addr)
        want = b"\x00\x04" + block.to_bytes(2, "big")
        call = ("handle_ack", block)
    else:
        code = TftpErrorCode(sx.size("code", 0, 8))
        text = sx.str("text", size, alphabet="a\u20ac")
        handled = []
        peer.error_handlers.append(lambda *a: handled.append(a))
        conn.send_error(code, text, addr=addr)
        want = bytes([0, 5, 0, code.value]) + text.encode() + b"\x00"
        call = ("handle_error", code, text)
    sent = conn._transport.sent
    sx.check(len(sent) == 1 and sent[0][1] == to, "sent once, where it should go")
    sx.check(sent[0][0] == want, "layout")
    sx.check(got(peer, sent[0][0], ME), "keeps going")
    sx.check(len(seen.calls) == 1, "one event")
    for a, b in zip(seen.calls[0], call):
        sx.check(a == b, "as sent")
    sx.check(not peer._transport.sent, "nothing to answer")
    if kind == "error":
        sx.check(len(handled) == 1 and handled[0][0] == code, "handlers: code")
        sx.check(handled[0][1] == text, "handlers: message")
        sx.check(handled[0][2] == ME, "handlers: sender")


@case("P19", [{"n": 5}], thorough=[{"n": 8}], budget=60,
      bounds="every datagram of up to 5 (thorough 8) bytes from a known or unknown "
      "sender, to a connected or unconnected socket")
def garbage(sx, n):
    """Whatever arrives, other messages are still processed; only its sender is told."""
    conn = connection(remote=sx.pick("remote", [PEER, None]))
    addr = sx.pick("addr", [PEER, OTHER])
    seen = Seen(conn, addr)
    size = sx.size("n", 0, n)
    data = sx.bytes("data", size)
    sx.check(got(conn, data, addr), "keeps going")
    sent = conn._transport.sent
    sx.check(len(sent) <= 1, "at most one answer")
    code = data[0] * 256 + data[1] if size > 1 else -1
    if len(sent):
        sx.check(sent[0][1] == addr, "the sender is answered")
        sx.check(sx.any(code == 0, code > 5), "well-known messages are not refused")
        sx.check(sent[0][0][:4] == b"\x00\x05\x00\x04", "illegal operation")
    else:
        sx.check(sx.all(code != 0, code <= 5), "an unknown message is refused")
    for call in seen.calls:
        if call[0] == "handle_ack":
            sx.check(sx.all(code == 4, call[1] == data[2] * 256 + data[3]), "ack")
        elif call[0] == "handle_data":
            sx.check(sx.all(code == 3, call[1] == data[2] * 256 + data[3]), "block")
            sx.check(call[2] == data[4:], "data")
        elif call[0] == "handle_error":
            sx.check(sx.all(code == 5, call[1] == data[2] * 256 + data[3]), "error")
        else:
            sx.check(code == (1 if "read" in call[0] else 2), "request")
            sx.check(sx.any(*(b == 0 for b in data[2:])), "terminated")
    if size >= 4:
        sx.check(sx.implies(sx.any(code == 3, code == 4), len(seen.calls) == 1),
                 "not ignored")
    conn._transport.sent.clear()
    seen.calls.clear()
    sx.check(got(conn, b"\x00\x04\x00\x07", addr), "still going")
    sx.check(len(seen.calls) == 1 and seen.calls[0] == ("handle_ack", 7),
             "the next message is processed")


@case("P19", [{"n": 2}], thorough=[{"n": 3}], budget=60,
      bounds="every sequence of 2 (thorough 3) data blocks and acknowledgements, every "
      "set of awaited ones out of blocks and acknowledgements 0 to 2")
def awaited(sx, n):
    """Only what is waited for is taken, once."""
    conn = connection()
    end = conn.endpoint(PEER)
    loop = VLoop()
    asyncio._set_running_loop(loop)
    events = {}
    try:
        for kind, where in (("data", end.awaiting_blocks), ("ack", end.awaiting_acks)):
            for b in range(3):
                if sx.concrete(sx.bool("wait_%s_%d" % (kind, b))):
                    events[kind, b] = where[b] = asyncio.Event()
    finally:
        asyncio._set_running_loop(None)
    left, blocks = set(events), {}
    for i in range(n):
        kind = sx.pick("kind%d" % i, ["data", "ack"])
        block = sx.size("block%d" % i, 0, 2)
        payload = sx.bytes("payload%d" % i, 1)
        op = b"\x00\x03" if kind == "data" else b"\x00\x04"
        conn._transport.sent.clear()
        got(conn, op + block.to_bytes(2, "big") + (payload if kind == "data" else b""))
        if (kind, block) in left:
            left.remove((kind, block))
            if kind == "data":
                blocks[block] = payload
            sx.check(not conn._transport.sent, "no complaint")
        elif kind == "data":
            sx.check([x[0][:4] for x in conn._transport.sent] == [b"\x00\x05\x00\x05"],
                     "unexpected data is refused")
        for key, event in events.items():
            sx.check(event.is_set() == (key not in left), "events")
        sx.check(set(end.blocks) == set(blocks), "taken blocks")
        for b, want in blocks.items():
            sx.check(end.blocks[b] == want, "the first one counts")
