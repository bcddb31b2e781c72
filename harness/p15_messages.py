"""P15: size-prefixed messages: any messages, split anywhere."""

import io
import logging

from harness.vloop import run
from runtimepy.message import MessageProcessor
from runtimepy.net.connection import Connection
from runtimepy.net.stream import (EchoUdpMessageConnection,
                                  UdpPrefixedMessageConnection,
                                  UdpStringMessageConnection)
from runtimepy.net.stream.json import JsonMessageConnection
from runtimepy.net.stream.base import PrefixedMessageConnection
from runtimepy.net.stream.string import StringMessageConnection
from runtimepy.primitives import Uint8, Uint16, Uint32, Uint64
from runtimepy.primitives.byte_order import ByteOrder
from sx.registry import case

ASSUMPTIONS = []

KINDS = {"uint8": Uint8, "uint16": Uint16, "uint32": Uint32, "uint64": Uint64}
SIZE = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8}
LOG = logging.getLogger("p15")
LOG.disabled = True


def processor(kind, order="NETWORK"):
    class Processor(MessageProcessor):
        message_length_kind = KINDS[kind]

    return Processor(byte_order=ByteOrder[order])


def prefix(n, kind, order):
    return n.to_bytes(SIZE[kind], "big" if order in ("NETWORK", "BIG_ENDIAN")
                      else "little")


def frame(sx, kind, order, lengths):
    """Messages, and the stream that carries them."""
    msgs = [sx.bytes("m%d" % i, n) for i, n in enumerate(lengths)]
    out = b""
    for m, n in zip(msgs, lengths):
        out = out + prefix(n, kind, order) + m
    return msgs, out


def complete(lengths, kind, got):
    """How many messages are complete once so many bytes have arrived."""
    done = 0
    for i, n in enumerate(lengths):
        done += SIZE[kind] + n
        if done > got:
            return i
    return len(lengths)


MIXES = [("uint32", "NETWORK", [3, 0, 2]), ("uint8", "LITTLE_ENDIAN", [1, 2, 0, 1]),
         ("uint16", "LITTLE_ENDIAN", [2, 0, 1]), ("uint64", "BIG_ENDIAN", [1, 2]),
         ("uint16", "BIG_ENDIAN", [0, 258])]


@case("P15", [{"mix": i} for i in range(len(MIXES))], budget=40,
      bounds="up to 4 messages of up to 3 bytes (one of 258), every content")
def encoded(sx, mix):
    """Each message is its length and its bytes, however it's given."""
    kind, order, lengths = MIXES[mix]
    msgs, stream = frame(sx, kind, order, lengths)
    proc = processor(kind, order)
    with io.BytesIO() as out:
        for m in msgs:
            proc.encode(out, m)
        sx.check(out.getvalue() == stream, "encoded")
    got = list(processor(kind, order).process(stream))
    sx.check([bytes(m) for m in got] == msgs, "decoded")


@case("P15", [{"mix": i, "cuts": 2} for i in range(4)],
      thorough=[{"mix": i, "cuts": 3} for i in range(4)], budget=90,
      bounds="up to 4 messages, every content, split at every 2 (thorough 3) places")
def chunked(sx, mix, cuts):
    kind, order, lengths = MIXES[mix]
    msgs, stream = frame(sx, kind, order, lengths)
    proc = processor(kind, order)
    at = []
    for i in range(cuts):
        at.append(sx.size("cut%d" % i, at[-1] if at else 0, len(stream)))
    got, prev = [], 0
    for cut in at + [len(stream)]:
        got += [bytes(m) for m in proc.process(stream[prev:cut])]
        sx.check(len(got) == complete(lengths, kind, cut), "as soon as complete")
        prev = cut
    sx.check(got == msgs, "each once, in order, intact")


@case("P15", [{"n": 4}, {"n": 5}], thorough=[{"n": 6}], budget=90,
      bounds="every stream of up to 5 (thorough 6) bytes with one-byte lengths, split "
      "at any place")
def any_stream(sx, n):
    """The messages in any stream are exactly those its lengths delimit."""
    data = sx.bytes("data", n)
    proc = processor("uint8")
    cut = sx.size("cut", 0, n)
    got = [bytes(m) for m in proc.process(data[:cut])]
    got += [bytes(m) for m in proc.process(data[cut:])]
    want, at = [], 0
    while at < n:
        size = sx.concrete(data[at]) if data[at] < n else n
        if at + 1 + size > n:
            break
        want.append(data[at + 1:at + 1 + size])
        at += 1 + size
    sx.check(got == want, "delimited by their lengths")


@case("P15", [{"mix": i} for i in range(3)], budget=60,
      bounds="up to 4 messages, abandoned after any of them, at any split")
def abandoned(sx, mix):
    """A message that can't be handled doesn't disturb the ones after it."""
    kind, order, lengths = MIXES[mix]
    msgs, stream = frame(sx, kind, order, lengths)
    proc = processor(kind, order)
    bad = sx.size("bad", 0, len(msgs) - 1)
    cut = sx.size("cut", 0, len(stream))
    got = []
    for chunk in (stream[:cut], stream[cut:], b"", b"", b""):
        try:
            for m in proc.process(chunk):
                got.append(bytes(m))
                if len(got) == bad + 1:
                    raise ValueError("bad message")
        except ValueError:
            pass
    sx.check(got == msgs, "each once, in order, intact")


JSON = [b'{"a":1}', b"{", b'"x"', b'{"b":[1,2]}', b"[]"]


@case("P15", budget=60, bounds="every 3 of 5 texts, valid JSON or not, at any split")
def json_messages(sx):
    texts = [sx.pick("t%d" % i, JSON) for i in range(3)]
    stream = b"".join(prefix(len(t), "uint32", "NETWORK") + t for t in texts)
    proc = MessageProcessor()
    cut = sx.size("cut", 0, len(stream))
    got = []
    for chunk in (stream[:cut], stream[cut:], b"", b"", b""):
        try:
            got += list(_collect(proc.messages(chunk), got))
        except ValueError:
            got.append("bad")
    want = []
    for t in texts:
        want.append("bad" if t == b"{" else eval(t))
    sx.check(got == want, "each once, in order")


def _collect(messages, got):
    for m in messages:
        got.append(m)
    return []


@case("P15", budget=40, bounds="every value of a small message")
def json_encoded(sx):
    value = sx.pick("value", [0, -1, "x\n\u00e9", None, True, [1, {}]])
    with io.BytesIO() as out:
        MessageProcessor().encode_json(out, {"k": value, "l": []})
        data = out.getvalue()
    sx.check(list(MessageProcessor().messages(data)) == [{"k": value, "l": []}],
             "read back")
    sx.check(data[:4] == (len(data) - 4).to_bytes(4, "big"), "length in bytes")


@case("P15", [{"mix": i} for i in range(4)], budget=40,
      bounds="texts of up to 2 characters of 1 to 4 bytes")
def text_encoded(sx, mix):
    """The length of a text is that of its bytes."""
    kind, order, _ = MIXES[mix]
    texts = [sx.str("s%d" % i, sx.size("n%d" % i, 0, 2), alphabet="\n\u00e9\u20ac\U0001f600")
             for i in range(2)]
    proc, want = processor(kind, order), b""
    with io.BytesIO() as out:
        for t in texts:
            proc.encode(out, t)
            want = want + prefix(len(t.encode()), kind, order) + t.encode()
        data = out.getvalue()
    sx.check(data == want, "its length and its bytes")
    got = [bytes(x) for x in processor(kind, order).process(data)]
    sx.check(got == [t.encode() for t in texts], "each once, in order, intact")


class Conn(PrefixedMessageConnection):
    def __init__(self, order):
        self.byte_order = order
        self.sent, self.got = [], []
        super().__init__(LOG)

    def send_binary(self, data):
        self.sent.append(data)

    async def process_single(self, stream, addr=None):
        data = stream.read()
        self.got.append((data, addr))
        return len(data) != 2


class Text(StringMessageConnection):
    def __init__(self):
        self.sent, self.got = [], []
        super().__init__(LOG)

    def send_binary(self, data):
        self.sent.append(data)

    async def process_message(self, data, addr=None):
        self.got.append(data)
        return True


@case("P15", [{"order": "NETWORK"}, {"order": "LITTLE_ENDIAN"}], budget=60,
      bounds="3 messages of up to 3 bytes, every content, received at any split")
def connections(sx, order):
    """What one connection sends, another receives, whatever the split."""
    tx, rx = Conn(ByteOrder[order]), Conn(ByteOrder[order])
    lengths = [sx.size("n%d" % i, 0, 3) for i in range(2)] + [1]
    msgs = [sx.bytes("m%d" % i, n) for i, n in enumerate(lengths)]
    for m in msgs:
        tx.send_message(m)
    sx.check(len(tx.sent) == 3, "each sent once")
    stream = b"".join(tx.sent)
    cut = sx.size("cut", 0, len(stream))
    oks = [run(rx.process_binary(c, addr=("host", 1)))
           for c in (stream[:cut], stream[cut:])]
    sx.check([g[0] for g in rx.got] == msgs, "each received once, in order")
    sx.check(all(g[1] == ("host", 1) for g in rx.got), "with its sender")
    done = 0
    for ok, upto in zip(oks, (cut, len(stream))):
        now = complete(lengths, "uint32", upto)
        sx.check(ok is all(n != 2 for n in lengths[done:now]), "each one's outcome")
        done = now


@case("P15", budget=60, bounds="texts of up to 2 and 1 characters of 1 to 3 bytes, "
      "at any split")
def strings(sx):
    tx, rx = Text(), Text()
    alphabet = "\n\u00e9\u20ac"
    texts = [sx.str("s%d" % i, sx.size("n%d" % i, 0, 2 - i), alphabet=alphabet)
             for i in range(2)]
    for t in texts:
        tx.send_message_str(t)
    stream = b"".join(tx.sent)
    cut = sx.size("cut", 0, len(stream))
    for c in (stream[:cut], stream[cut:]):
        sx.check(run(rx.process_binary(c)), "processed")
    sx.check(rx.got == texts, "each received once, in order")


class Udp(UdpPrefixedMessageConnection):
    def __init__(self):
        self.sent, self.got = [], []
        self.byte_order = ByteOrder.NETWORK
        Connection.__init__(self, LOG)

    def sendto(self, data, addr=None):
        self.sent.append((data, addr))

    async def process_single(self, stream, addr=None):
        self.got.append((stream.read(), addr))
        return len(self.got[-1][0]) != 1


class Echo(EchoUdpMessageConnection):
    __init__, sendto = Udp.__init__, Udp.sendto


class Words(UdpStringMessageConnection):
    __init__, sendto = Udp.__init__, Udp.sendto

    async def process_message(self, data, addr=None):
        self.got.append((data.encode(), addr))
        return True


@case("P15", [{"kind": k} for k in ("plain", "echo", "words")], budget=40,
      bounds="3 messages of up to 2 ASCII characters to and from 2 addresses, or the one "
      "that's connected to")
def datagrams(sx, kind):
    """A message is sent where it should go and received with where it's from."""
    tx, rx = Udp(), {"plain": Udp, "echo": Echo, "words": Words}[kind]()
    msgs, addrs = [], []
    for i in range(3):
        msgs.append(sx.bytes("m%d" % i, sx.size("n%d" % i, 0, 2)))
        sx.assume(sx.all(*[b < 128 for b in msgs[-1]]))
        addrs.append(sx.pick("addr%d" % i, [None, ("a", 1), ("b", 2)]))
        tx.send_message(msgs[-1], addr=addrs[-1])
    sx.check([a for _, a in tx.sent] == addrs, "sent to its address")
    oks = [run(rx.process_datagram(data, ("from", i)))
           for i, (data, _) in enumerate(tx.sent)]
    from_ = [("from", i) for i in range(3)]
    if kind == "echo":
        sx.check([d for d, _ in rx.sent] == [d for d, _ in tx.sent], "echoed")
        sx.check([a for _, a in rx.sent] == from_, "to where it's from")
    else:
        sx.check([d for d, _ in rx.got] == msgs, "received")
        sx.check([a for _, a in rx.got] == from_, "from there")
    sx.check(oks == [kind != "plain" or len(m) != 1 for m in msgs], "each one's outcome")


class Json(JsonMessageConnection):
    def __init__(self):
        self.sent, self.got = [], []
        super().__init__(LOG)

    def send_binary(self, data):
        self.sent.append(data)

    async def process_json(self, data, addr=None):
        self.got.append((data, addr))
        return "stop" not in data


TEXTS = ['{"a": 1}', "{", '{"stop": 1}', "[1]", "1", '"x"', "", "null",
         '{"b": {"c": []}}', "{}"]


@case("P15", budget=40, bounds="every 3 of 10 texts, JSON or not")
def json_connection(sx):
    """Messages that aren't JSON objects are ignored, and the connection goes on."""
    conn = Json()
    texts = [sx.pick("t%d" % i, TEXTS) for i in range(3)]
    stream = b"".join(prefix(len(t), "uint32", "NETWORK") + t.encode() for t in texts)
    ok = run(conn.process_binary(stream, addr=("host", 1)))
    want = [eval(t) for t in texts if t.startswith("{") and len(t) > 2]
    got = [d for d, _ in conn.got if d]
    sx.check(got == want, "each object once, in order")
    sx.check(all(a == ("host", 1) for _, a in conn.got), "with its sender")
    sx.check(ok == ('{"stop": 1}' not in texts), "each one's outcome")


@case("P15", [{"mix": i} for i in range(3)], budget=60,
      bounds="up to 4 messages, cut off after every byte by a restart, then all of them")
def restarted(sx, mix):
    """What's left of a stream doesn't affect the one after a restart."""
    _, order, lengths = MIXES[mix]
    conn = Conn(ByteOrder[order])
    msgs, stream = frame(sx, "uint32", order, [n for n in lengths if n != 2])
    cut = sx.size("cut", 0, len(stream))
    run(conn.process_binary(stream[:cut]))
    conn.got.clear()
    conn.restart_extra()
    sx.check(run(conn.process_binary(stream)), "processed")
    sx.check([d for d, _ in conn.got] == msgs, "each received once, in order")
    sx.check(conn.processor.byte_order is ByteOrder[order], "in the same byte order")
