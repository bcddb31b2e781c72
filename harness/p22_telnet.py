"""P22: telnet streams taken apart into text, commands, options and signals."""

import asyncio
import logging

from harness.vloop import VLoop
from runtimepy.net.tcp.telnet import BasicTelnet, Telnet, TelnetCode, TelnetNvt
from sx.registry import case

ASSUMPTIONS = ["transports deliver the bytes they are given, in order"]
LOG = logging.getLogger("p22")
LOG.disabled = True
IAC = 255


class Transport:
    def __init__(self):
        self.sent = b""

    def write(self, data):
        self.sent = self.sent + data

    def get_extra_info(self, name, default=None):
        return ("host", 1) if name in ("sockname", "peername") else default


class Protocol:
    conn = None


class Recorder(Telnet):
    """Records what a stream consists of."""

    def init(self):
        self.data, self.events = [], []

    async def process_telnet_message(self, data):
        self.data.extend(list(data))
        return True

    async def process_command(self, code):
        self.events.append(("command", int(code)))

    async def handle_nvt(self, action):
        self.events.append(("nvt", int(action)))

    async def process_option(self, code, option, stream):
        self.events.append(("option", int(code), option))


class Texts(Recorder):
    """Records text."""

    def init(self):
        super().init()
        self.text = ""

    process_telnet_message = Telnet.process_telnet_message

    async def process_text(self, data):
        self.text = self.text + data
        return True


def connect(kind):
    conn = kind(Transport(), Protocol())
    conn.logger = LOG
    return conn


def feed(sx, conn, *chunks):
    loop = VLoop()
    try:
        for chunk in chunks:
            sx.check(loop.run_until_complete(conn.process_binary(chunk)),
                     "keeps going")
    finally:
        asyncio.set_event_loop(None)


def expected(data):
    """RFC 854, for all bytes of a stream."""
    text, events, state = [], [], ""
    for b in data:
        if state == "command":
            state = ""
            if b == IAC:
                text.append(b)
            elif 251 <= b <= 254:
                state, code = "option", b
            elif b >= 240:
                events.append(("command", b))
        elif state == "option":
            events.append(("option", code, b))
            state = ""
        elif b == IAC:
            state = "command"
        elif b in (0, 7, 8, 11, 12):
            events.append(("nvt", b))
        else:
            text.append(b)
    return text, events


def compare(sx, conn, data):
    text, events = expected(data)
    sx.check(len(conn.data) == len(text), "as many text bytes")
    sx.check(sx.all(*(a == b for a, b in zip(conn.data, text))), "text bytes")
    sx.check(len(conn.events) == len(events), "as many events")
    for a, b in zip(conn.events, events):
        sx.check(sx.eq(list(a), list(b)), "events")


@case("P22", [{"n": 2}, {"n": 3, "some": True}],
      thorough=[{"n": 3}, {"n": 4, "some": True}], budget=90,
      bounds="every stream of 2 (thorough 3) bytes and of 3 (thorough 4) of 8 kinds of "
      "bytes, after any of 3 beginnings, split at any place")
def stream(sx, n, some=False):
    """The parts of a stream don't depend on how it is split."""
    head = sx.pick("head", [[], [IAC], [IAC, 253]])
    data = sx.bytes("data", n)
    if some:
        for b in data:
            sx.assume(sx.any(b == IAC, b == 253, b == 241, b == 65, b == 13, b == 0,
                             b == 240, b == 200))
    data = bytes(head) + data if head else data
    cut = sx.size("cut", 0, len(data))
    conn = connect(Recorder)
    feed(sx, conn, *(c for c in (data[:cut], data[cut:]) if len(c)))
    compare(sx, conn, data)


PARTS = ["a", "\xe9", "\u20ac", "\r\n"]


@case("P22", [{"n": 2}], thorough=[{"n": 3}], budget=60,
      bounds="every text of 2 (thorough 3) of 4 characters, every byte before or "
      "after it, split at any two places")
def text(sx, n):
    """Text arrives as it was sent; bytes that aren't text harm nothing else."""
    sent = "".join(sx.pick("part%d" % i, PARTS) for i in range(n)).encode()
    extra = sx.pick("extra", [None, "before", "after"])
    if extra:
        b = sx.pick("byte", [0x80, 0xff, 0xc3, 0x7f, 0xe2])
        b = bytes([b, b]) if b == IAC else bytes([b])
        sent = b + sent if extra == "before" else sent + b
    plain = sent.replace(b"\xff\xff", b"\xff")
    one = sx.size("one", 0, len(sent))
    two = sx.size("two", one, len(sent))
    conn = connect(Texts)
    feed(sx, conn, *(c for c in (sent[:one], sent[one:two], sent[two:], b".") if c))
    sx.check(conn.text == (plain + b".").decode("utf-8", "replace"), "text")
    sx.check(not conn.events, "nothing else")


@case("P22", budget=40, bounds="every command, option and option value, text around "
      "them")
def sending(sx):
    """What is sent as a command or option arrives as one, text as text."""
    conn, peer = connect(Recorder), connect(Recorder)
    option = sx.pick("option", ["WILL", "WONT", "DO", "DONT"])
    value = sx.int("value", 0, 255)
    command = sx.pick("command", [c for c in TelnetCode if not
                                  TelnetCode.is_option_code(c) and c != IAC])
    conn.send_text("a")
    conn.send_option(TelnetCode[option], value)
    conn.send_text("b\r\n")
    conn.send_command(command)
    conn.send_text("c")
    feed(sx, peer, conn._transport.sent)
    sx.check(bytes(peer.data) == b"ab\r\nc", "text")
    sx.check(len(peer.events) == 2, "events")
    sx.check(sx.eq(list(peer.events[0]),
                   ["option", int(TelnetCode[option]), value]), "option")
    sx.check(peer.events[1] == ("command", int(command)), "command")


@case("P22", budget=40, bounds="every command and signal")
def basic(sx):
    """An interrupt disables a basic connection, nothing else does."""
    conn = connect(BasicTelnet)
    conn.log_metrics = lambda **_: None
    first = sx.int("first", 0, 255)
    second = sx.int("second", 0, 255)
    sx.assume(sx.any(first == IAC, sx.all(first == 7, second >= 240, second < 255)))
    sx.assume(sx.any(second != IAC, first != IAC))
    feed(sx, conn, bytes([first, second]))
    sx.check(sx.iff(conn.disabled, sx.all(first == IAC, second == 244)), "disabled")
    for nvt in TelnetNvt:
        feed(sx, conn, bytes([nvt]))
