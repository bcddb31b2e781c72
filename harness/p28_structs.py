"""P28: runtime structs and the telemetry made of them."""

import asyncio
import contextlib
import logging

from harness.p23_connections import Transport, quiet
from harness.vloop import VLoop
from runtimepy.net import mixin
from runtimepy.net.arbiter.info import AppInfo, RuntimeStruct
from runtimepy.net.arbiter.struct import TimestampedStruct, UdpStructTransceiver
from runtimepy.net.udp.protocol import UdpQueueProtocol
from runtimepy.primitives import Int16, Uint8
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.field.fields import BitFields
from sx.registry import case

ASSUMPTIONS = ["the network delivers or drops whole datagrams", "the discovered "
               "transmission unit is given"]
LOG = logging.getLogger("p28")
LOG.disabled = True
ORDERS = {"big": ByteOrder.BIG_ENDIAN, "little": ByteOrder.LITTLE_ENDIAN}
CLOCK = [0]


def keeper():
    return CLOCK[0]


class Sample(TimestampedStruct):
    """A struct with a few channels and some bit fields."""

    time_keeper = keeper

    def init_env(self):
        super().init_env()
        self.small, self.signed = Uint8(), Int16()
        self.env.channel("small", self.small)
        self.fields = BitFields.new()
        self.fields.flag("flag")
        self.fields.field("three", width=3)
        self.env.fields.add(self.fields)
        self.env.channel("signed", self.signed)


class Big(Sample):
    byte_order = ORDERS["big"]


class Little(Sample):
    byte_order = ORDERS["little"]


class Other(TimestampedStruct):
    time_keeper = keeper


KINDS = {"big": Big, "little": Little}
SIZE = 8 + 2 + 1 + 1 + 2


class Stub:
    def __init__(self):
        self.stack = contextlib.ExitStack()


def build(kind, name="s"):
    CLOCK[0] = 1
    struct = kind(name, {})
    struct.logger = LOG
    app = Stub()
    coro = struct.build(app)
    try:
        coro.send(None)
    except StopIteration:
        pass
    return struct, app


class Link(UdpStructTransceiver):
    """A transceiver that records what it handles."""

    struct_kind = Sample

    def init(self):
        super().init()
        self.got = []

    def handle_update(self, timestamp_ns, instance, addr):
        self.got.append((timestamp_ns, values(instance), addr,
                         instance.small.last_updated_ns,
                         instance.timestamp.last_updated_ns))


class Wire(Transport):
    """Keeps every datagram."""

    def __init__(self, peer=True):
        super().__init__(peer)
        self.datagrams = []

    def get_extra_info(self, name, default=None):
        if name == "socket":
            return self
        return super().get_extra_info(name, default)

    type = 2

    def sendto(self, data, addr=None):
        # A socket that isn't connected can't send to nowhere.
        assert self.peer or addr is not None
        self.datagrams.append((data, addr))


def link(peer=True):
    return quiet(Link(Wire(peer), UdpQueueProtocol()))


def values(struct):
    return [struct.env.value(name) for name in struct.env.names]


@contextlib.contextmanager
def unit(size, probes):
    """Discovery of the transmission unit with a known result."""
    old = mixin.host_discover_mtu

    def discover(local, remote, probe_size, fallback, kind=None, probe_create=bytes):
        probes.append((probe_size, probe_create(probe_size)))
        return size

    mixin.host_discover_mtu = discover
    try:
        yield
    finally:
        mixin.host_discover_mtu = old


def now(coro):
    """The result of something that never waits."""
    try:
        coro.send(None)
    except StopIteration as exc:
        return exc.value
    raise AssertionError("waited")


NAMES = ["timestamp", "sequence", "small", "flag", "three", "signed"]


@case("P28", [{"order": "big", "steps": 3}, {"order": "little", "steps": 3}],
      thorough=[{"order": "big", "steps": 5}, {"order": "little", "steps": 5}],
      budget=150, bounds="3 (5) captures with every combination of sampling and "
      "flushing, of every value of 6 channels at every time, units of 1 to 3 structs, "
      "any datagram lost")
def telemetry(sx, order, steps):
    """What arrives is what was sampled, whole and in order."""
    tx, app = build(KINDS[order], "tx")
    rx, _ = build(KINDS[order], "rx")
    sx.check(list(tx.env.names) == NAMES and tx.array.size == SIZE, "layout")
    per = sx.size("per", 1, 3)
    probes = []
    peer = sx.bool("connected")
    source, sink = link(peer), link()
    source.metrics.tx.increment = lambda size: None
    if not peer:
        source.remote_address = sink.local_address
    with unit(68 + per * SIZE + (SIZE - 1) * (per % 2), probes):
        source.assign_tx(tx)
    sink.assign_rx(rx)
    for size, payload in probes:
        sx.check(SIZE <= len(payload) <= size and size - len(payload) < SIZE, "probe")

    base = tx.sequence.value
    pending, want, at, count = [], [], 0, 0
    lost = sx.int("lost", -1, steps - 1)
    for i in range(steps):
        sample, flush = sx.bool("sample%d" % i), sx.bool("flush%d" % i)
        CLOCK[0] = sx.int("time%d" % i, 0, 2**64 - 1)
        tx.small.value = sx.int("small%d" % i, 0, 255)
        tx.signed.value = sx.int("signed%d" % i, -32768, 32767)
        tx.env.set("flag", sx.bool("flag%d" % i))
        tx.env.set("three", sx.int("three%d" % i, 0, 7))
        source.capture(sample=sample, flush=flush)
        if sample:
            count += 1
            sx.check(tx.timestamp.value == CLOCK[0], "time of the sample")
            sx.check(tx.sequence.value == (base + count) % 65536, "sequence")
            pending.append(values(tx))
        if pending and (flush or len(pending) == per):
            want.append(pending)
            pending = []
        sent = source._transport.datagrams
        sx.check(len(sent) == len(want), "datagrams sent")
        while at < len(want):
            data, addr = sent[at]
            sx.check(len(data) == len(want[at]) * SIZE <= per * SIZE, "whole")
            sx.check(addr is None or addr == source.remote_address, "destination")
            before = len(sink.got)
            if lost == at:
                at += 1
                continue
            sx.check(now(sink.process_datagram(data, ("10.0.0.9", 7))) is True, "ok")
            got = sink.got[before:]
            sx.check(len(got) == len(want[at]), "each one handled")
            for one, expect in zip(got, want[at]):
                sx.check(one[0] == expect[0], "timestamp given")
                for a, b in zip(one[1], expect):
                    sx.check(a == b, "values received")
                sx.check(one[2] == ("10.0.0.9", 7), "address")
                sx.check(one[3] == expect[0] and one[4] == expect[0], "times updated")
            at += 1


@case("P28", [{"order": "big"}, {"order": "little"}], thorough=[{"order": "big", "most": 45},
      {"order": "little", "most": 45}],
      bounds="every datagram of up to 30 (45) bytes")
def anything(sx, order, most=30):
    """A datagram of anything is either structs or ignored."""
    rx, _ = build(KINDS[order])
    sink = link()
    n = sx.size("n", 0, most)
    data = sx.bytes("data", n)
    sx.check(now(sink.process_datagram(data, ("1.2.3.4", 5))) is True, "no struct")
    sx.check(sink.got == [], "nothing to update")
    sink.assign_rx(rx)
    before = values(rx)
    sx.check(now(sink.process_datagram(data, ("1.2.3.4", 5))) is True, "goes on")
    count = n // SIZE if n % SIZE == 0 else 0
    sx.check(len(sink.got) == count, "structs")
    for i, one in enumerate(sink.got):
        raw = data[i * SIZE:(i + 1) * SIZE]
        names = dict(zip(NAMES, one[1]))
        sx.check(one[0] == int.from_bytes(raw[:8], order), "timestamp")
        sx.check(names["timestamp"] == one[0], "same")
        sx.check(names["sequence"] == int.from_bytes(raw[8:10], order), "sequence")
        sx.check(names["small"] == raw[10], "small")
        sx.check(names["signed"] == int.from_bytes(raw[12:14], order, signed=True),
                 "signed")
        sx.check(names["three"] == (raw[11] >> 1) & 7, "field")
        sx.check(names["flag"] == (raw[11] & 1 == 1), "flag")
    if count == 0:
        sx.check(values(rx) == before, "unchanged")


@case("P28", bounds="3 structs of 2 kinds and names of 2 parts, 3 patterns")
def assigned(sx):
    """A transceiver takes the only struct that matches, once, of its kind."""
    structs = {}
    for i in range(3):
        name = ["a_x", "b_x", "b_y"][i]
        structs[name] = build(sx.pick("kind%d" % i, [Big, Other]), name)[0]
    app = AppInfo.__new__(AppInfo)
    app.structs = structs
    pattern = sx.pick("pattern", ["a", "b", "x", "y", "z"])
    want = [s for n, s in structs.items() if pattern in n and isinstance(s, Sample)]
    conn = link()
    probes = []
    rx = sx.bool("rx")
    with unit(1500, probes):
        assign = conn.assign_app_rx if rx else conn.assign_app_tx
        got = assign(pattern, app)
    sx.check((got is not None) == (len(want) == 1), "only one")
    sx.check((conn.struct_rx if rx else conn.struct_tx) is got, "assigned")
    if got is None:
        return
    sx.check(got is want[0], "that one")
    with unit(1500, probes):
        for name, struct in structs.items():
            try:
                (conn.assign_rx if rx else conn.assign_tx)(struct)
                sx.fail("assigned twice")
            except AssertionError:
                pass
        other = link()
        try:
            (other.assign_rx if rx else other.assign_tx)(build(Other)[0])
            sx.fail("wrong kind")
        except AssertionError:
            pass
    sx.check((conn.struct_rx if rx else conn.struct_tx) is got, "still")


class Final(RuntimeStruct):
    polls = 0

    def poll(self):
        self.polls += 1


class Last(Final):
    final_poll = True


@case("P28", bounds="both kinds, an application that ends or fails")
def finally_(sx):
    """A struct that asks for it is polled once when the application ends."""
    last = sx.bool("last")
    struct, app = build(Last if last else Final)
    sx.check(struct.app is app and struct.polls == 0, "built")
    try:
        with app.stack:
            sx.check(struct.polls == 0, "not yet")
            if sx.bool("fails"):
                raise KeyError
    except KeyError:
        pass
    sx.check(struct.polls == (1 if last else 0), "polled")
