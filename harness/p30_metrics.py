"""P30: what is counted and measured about connections, tasks and programs."""

import asyncio
import contextlib
from io import BytesIO
import logging
import types

from harness.p23_connections import Transport, Udp, UdpProtocol, loop_run, protocol, quiet
from harness.p33_peers import Stdin, Struct
import runtimepy.metrics.channel as channel
from runtimepy.metrics.channel import ChannelMetrics
from runtimepy.metrics.connection import ConnectionMetrics
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram
from runtimepy.task import PeriodicTask
from runtimepy.metrics.task import PeriodicTaskMetrics
import runtimepy.metrics.task as task_metrics
from sx.registry import case

ASSUMPTIONS = [
    "the rates of vcorelib's trackers are what was added divided by the time it took",
    "less than 2**32 messages, and less than 50 of them where rates are checked",
    "times in nanoseconds where iterations are measured",
]
LOG = logging.getLogger("p30")
LOG.disabled = True
SECOND = 1000000000


class Still:
    """A rate tracker for cases that aren't about rates."""

    def poll(self, time_ns=None):
        return 0.0

    def __call__(self, time_ns=None, value=1.0):
        return 0.0

    def reset(self):
        pass


def still(metrics):
    metrics._message_rate_tracker = metrics._kbps_tracker = Still()
    return metrics


def stills(metrics):
    still(metrics.tx)
    still(metrics.rx)
    return metrics


@case("P30", [{"n": 3}], [{"n": 5}], budget=60,
      bounds="3 (5) of: a message of any size, polling, resetting, or taking over other "
      "metrics of any value")
def counts(sx, n):
    """Messages and bytes are counted exactly."""
    metrics, other = stills(ConnectionMetrics()), stills(ConnectionMetrics())
    want = {"tx": [0, 0], "rx": [0, 0]}
    for i in range(n):
        what = sx.pick("what%d" % i, ["message", "poll", "reset", "update"])
        way = sx.pick("way%d" % i, ["tx", "rx"]) if what == "message" else None
        if what == "message":
            size = sx.int("size%d" % i, 0, 2 ** 40)
            getattr(metrics, way).increment(size, time_ns=i)
            want[way] = [want[way][0] + 1, want[way][1] + size]
        elif what == "poll":
            metrics.poll(time_ns=i)
        elif what == "reset":
            metrics.reset()
            want = {"tx": [0, 0], "rx": [0, 0]}
        else:
            for j, key in enumerate(want):
                values = [sx.int("m%d%d" % (i, j), 0, 2 ** 31),
                          sx.int("b%d%d" % (i, j), 0, 2 ** 62)]
                from_ = getattr(other, key)
                from_.messages.value, from_.bytes.value = values
                rated = sx.pick("rated%d" % i, [0, 1]) if not j else rated
                from_.message_rate.value = rated * (10.0 + j)
                from_.kbps.value = rated * (20.0 + j)
                want[key] = values
            metrics.update(other)
            for j, key in enumerate(want):
                sx.check(getattr(metrics, key).message_rate.value
                         == rated * (10.0 + j), "rate")
                sx.check(getattr(metrics, key).kbps.value == rated * (20.0 + j),
                         "kbps")
        for key, (messages, size) in want.items():
            sx.check(getattr(metrics, key).messages.value == messages, "messages")
            sx.check(getattr(metrics, key).bytes.value == size, "bytes")


def near(a, b):
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1.0)


@case("P30", budget=60,
      bounds="2 messages of 3 sizes or polls, at any times, with trackers that "
      "give any rate")
def trackers(sx, n=2):
    """What is tracked is what was transferred when, and published in kilobits."""
    seen, gives = [], []

    class Tracker:
        def __init__(self, name):
            self.name = name

        def poll(self, time_ns=None):
            return self(time_ns, None)

        def __call__(self, time_ns=None, value=1.0):
            seen.append((self.name, time_ns, value))
            gives.append(sx.pick("give%d" % len(gives), [0.0, 0.5, 1024.25, 3.0]))
            return gives[-1]

        def reset(self):
            seen.append((self.name, "reset"))

    metrics = ChannelMetrics()
    metrics._message_rate_tracker, metrics._kbps_tracker = Tracker("rate"), Tracker("kbps")
    for i in range(n):
        seen.clear()
        gives.clear()
        what = sx.pick("what%d" % i, ["message", "poll", "reset"])
        now = sx.int("now%d" % i, 0, 2 ** 63)
        size = sx.pick("size%d" % i, [0, 125, 100001]) if what == "message" else 0
        if what == "message":
            metrics.increment(size, time_ns=now)
        elif what == "poll":
            metrics.poll(time_ns=now)
        else:
            metrics.reset()
        sx.check(len(seen) == 2, "both are tracked")
        order = [x[0] for x in seen]
        sx.check(sorted(order) == ["kbps", "rate"], "once each")
        by = {x[0]: x[1:] for x in seen}
        if what == "reset":
            sx.check(by == {"kbps": ("reset",), "rate": ("reset",)}, "reset")
            sx.check(metrics.kbps.value == 0 and metrics.message_rate.value == 0, "zero")
            continue
        sx.check(sx.all(by["kbps"][0] == now, by["rate"][0] == now), "when")
        if what == "message":
            sx.check(by["rate"][1] == 1.0, "one message")
            sx.check(near(by["kbps"][1], size / 1000), "kilobytes")
        got = dict(zip(order, gives))
        sx.check(metrics.kbps.value == 8 * got["kbps"], "in bits")
        sx.check(metrics.message_rate.value == got["rate"], "messages")


def near(a, b):
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1.0)


@case("P30", [{"n": 3}], [{"n": 4}],
      budget=60, bounds="3 (4) messages of 2 sizes or polls, at 3 distances in time, with "
      "or without a reset after the second")
def rates(sx, n):
    """Rates are per second, and in kilobits of what was transferred."""
    channel._metrics_time_ns = lambda: 0
    metrics = ChannelMetrics()
    now, start, messages, size = 5 * SECOND, None, 0, 0
    again = sx.pick("again", [False, True])
    for i in range(n):
        what = sx.pick("what%d" % i, [0, 1, 2])
        now += sx.pick("dt%d" % i, [1, 2, 8]) * SECOND // 4
        if what < 2:
            count = [125, 4000][what]
            metrics.increment(count, time_ns=now)
            messages += 1
            size += count
        else:
            metrics.poll(time_ns=now)
        if start is None:
            start = now
        took = (now - start) / SECOND
        rate = messages / took if took else 0.0
        kbps = size * 8 / 1000 / took if took else 0.0
        sx.check(near(metrics.message_rate.value, rate), "messages per second")
        sx.check(near(metrics.kbps.value, kbps), "kilobits per second")
        if again and i == 1:
            metrics.reset()
            sx.check(metrics.message_rate.value == 0 and metrics.kbps.value == 0, "reset")
            start, messages, size = None, 0, 0


class Task(PeriodicTask):
    async def dispatch(self):
        return True


NAMES = ["messages", "messages_rate", "bytes", "kbps"]


@case("P30", budget=60, bounds="every value of every count")
def published(sx):
    """The channels of metrics are those of the metrics."""
    conn = quiet(Udp(Transport(), UdpProtocol()))
    metrics = conn.metrics
    task = Task("p30")
    sources = {}
    for way in ("tx", "rx"):
        of = getattr(metrics, way)
        for name, prim in zip(NAMES, [of.messages, of.message_rate, of.bytes, of.kbps]):
            sources[("conn", "metrics.%s.%s" % (way, name))] = prim
    for name in ("dispatches", "rate_hz", "average_s", "max_s", "min_s", "overruns"):
        sources[("task", "metrics." + name)] = getattr(task.metrics, name)
    values = {}
    for i, (key, prim) in enumerate(sources.items()):
        if isinstance(prim.value, float):
            values[key] = float(i)
        else:
            values[key] = sx.int("v%d" % i, 0, 65535)
        prim.value = values[key]
    for (of, name), value in values.items():
        env = conn.env if of == "conn" else task.env
        sx.check(env.value(name) == value, "published")


@case("P30", budget=90, bounds="3 chunks of any 3 sizes sent or received over TCP and UDP, "
      "as text or binary, with the connection going on or not")
def transferred(sx):
    """Connections count every chunk they send and receive."""
    kind = sx.pick("kind", ["tcp", "udp"])
    if kind == "tcp":
        class Tcp(TcpConnection):
            async def process_binary(self, data):
                return True

            async def process_text(self, data):
                return True

        conn = quiet(Tcp(Transport(), protocol()))
    else:
        conn = quiet(Udp(Transport(), UdpProtocol()))
        conn._transport.sendto = lambda data, addr=None: None
    stills(conn.metrics)
    want = [[0, 0], [0, 0]]

    async def main():
        for i in range(3):
            what = sx.pick("what%d" % i, ["text", "binary", "receive"])
            size = sx.pick("size%d" % i, [0, 1, 5])
            data = sx.bytes("d%d" % i, size)
            if what == "text":
                text = sx.str("t%d" % i, size, hi=127)
                conn.send_text(text)
            elif what == "binary":
                conn.send_binary(data)
            elif kind == "tcp":
                conn._protocol.queue.put_nowait(data)
                got = await conn._await_message()
                sx.check(sx.all(len(got) == size, got == data), "received")
            else:
                conn._protocol.queue.put_nowait((data, ("a", 1)))
                conn._protocol.queue.put_nowait(None)
                conn._set_enabled(True)
                await conn._process_read()
                conn._set_enabled(True)
            way = what == "receive"
            want[way][0] += 1
            want[way][1] += size
            sx.check(conn.metrics.tx.messages.value == want[0][0], "sent")
            sx.check(conn.metrics.tx.bytes.value == want[0][1], "bytes sent")
            sx.check(conn.metrics.rx.messages.value == want[1][0], "received")
            sx.check(conn.metrics.rx.bytes.value == want[1][1], "bytes received")

    if kind == "udp":
        conn._protocol.queue = asyncio.Queue()
    loop_run(main())


@case("P30", bounds="up to 3 connections, polled with a time or without, or reset")
def manager(sx):
    """Metrics of all connections are polled at once, and reset at once."""
    times = []

    class Recorder(Still):
        def poll(self, time_ns=None):
            times.append(time_ns)
            return 3.0

    managed = ConnectionManager()
    count = sx.pick("count", [0, 1, 3])
    at = sx.int("at", 1, 2 ** 60)
    for i in range(count):
        metrics = ConnectionMetrics()
        for of in (metrics.tx, metrics.rx):
            of._message_rate_tracker = of._kbps_tracker = Recorder()
            of.messages.value = of.bytes.value = 5
        managed._conns.append(types.SimpleNamespace(metrics=metrics))
    what = sx.pick("what", ["poll", "reset"])
    if what == "poll":
        managed.poll_metrics(time_ns=at)
    else:
        managed.reset_metrics()
    sx.check(len(times) == (4 * count if what == "poll" else 0), "every one")
    for time in times:
        sx.check(time == at, "at the same time")
    for conn in managed._conns:
        for of in (conn.metrics.tx, conn.metrics.rx):
            sx.check(of.kbps.value == (24 if what == "poll" else 0), "kilobits")
            sx.check(of.message_rate.value == (3 if what == "poll" else 0), "rate")
            sx.check(of.messages.value == (5 if what == "poll" else 0), "messages")
            sx.check(of.bytes.value == (5 if what == "poll" else 0), "bytes")


class Average:
    """A moving average that keeps what it was given."""

    def __init__(self, sx):
        self.sx, self.values, self.max, self.min = sx, [], None, None

    def __call__(self, value):
        self.values.append(value)
        self.max = self.min = value
        for x in self.values:
            self.max = self.sx.ite(x > self.max, x, self.max)
            self.min = self.sx.ite(x < self.min, x, self.min)
        return value


class Value:
    """A primitive of any value."""

    def __init__(self):
        self.value = 0

    def __call__(self, value=None):
        if value is not None:
            self.value = value
        return self.value

    def set_value(self, value, timestamp_ns=None):
        self.value = value


@case("P30", [{"n": 3}], [{"n": 5}], budget=60,
      bounds="3 (5) iterations at every time, with 3 periods")
def measured(sx, n):
    """A task's iterations are counted and measured."""
    clock, old = [0], task_metrics.from_nanos
    task_metrics.metrics_time_ns = lambda: clock[0]
    task_metrics.from_nanos = lambda x: x
    period = sx.pick("period", [1, 1000, 2 ** 30])
    average, started = Average(sx), []
    metrics = PeriodicTaskMetrics(*(Value() for _ in range(6)))
    iter_time, overruns = Value(), 0

    def rate(time_ns):
        started.append(time_ns)
        return 2.0 * len(started)

    try:
        for i in range(n):
            at, end = sx.int("at%d" % i, 1, 2 ** 40), sx.int("end%d" % i, 1, 2 ** 40)
            sx.assume(sx.all(clock[0] <= at, at <= end))
            clock[0] = at
            with metrics.measure(rate, average, iter_time, period):
                clock[0] = end
            length = end - at
            overruns = overruns + sx.ite(length > period, 1, 0)
            sx.check(started[-1] == at, "when it started")
            sx.check(sx.all(iter_time.value == length, average.values[-1] == length),
                     "how long it took")
            sx.check(len(started) == len(average.values) == i + 1, "once")
            sx.check(metrics.dispatches.value == i + 1, "how many")
            sx.check(metrics.max_s.value == average.max, "the longest")
            sx.check(metrics.min_s.value == average.min, "the shortest")
            sx.check(metrics.average_s.value == length, "the average")
            sx.check(metrics.overruns.value == overruns, "overruns")
            sx.check(metrics.rate_hz.value == 2.0 * (i + 1), "rate")
    finally:
        task_metrics.from_nanos = old


class Program(PeerProgram):
    struct_type = Struct


class Peer(RuntimepyPeer):
    struct_type = Struct


@case("P30", budget=60, bounds="3 chunks of up to 3 bytes of any of the streams of a "
      "program, seen from either side")
def streams(sx):
    """The bytes of a program's streams are counted on both sides."""
    side = sx.pick("side", [RuntimepyPeer, Program])
    peer = Program("p30", {}) if side is Program else Peer(None, "p30", {})
    peer.logger = LOG
    for name in ("stderr", "stdout", "stdin"):
        setattr(peer, name + "_metrics", still(ChannelMetrics()))
    written = []

    class Sink:
        def write(self, data):
            written.append(data)
            return len(data)

        def writelines(self, lines):
            for line in lines:
                self.write(line)

        def flush(self):
            pass

    peer.peer = types.SimpleNamespace(
        env=types.SimpleNamespace(parse_event_stream=lambda stream: []))
    peer.processor = types.SimpleNamespace(messages=lambda data: [])
    peer.json_output = Sink()
    peer.protocol = types.SimpleNamespace(stdin=Sink())
    want = {"stderr": [0, 0], "stdout": [0, 0], "stdin": [0, 0]}

    async def main():
        for i in range(3):
            size = sx.pick("size%d" % i, [0, 1, 3])
            data = sx.bytes("d%d" % i, size)
            what = sx.pick("what%d" % i, ["write", "stdout", "stderr"])
            if side is Program:
                what = "write"
            if what == "write":
                peer.write(data)
                sx.check(written[-1] == data, "written")
                name = "stdout" if side is Program else "stdin"
                want[name] = [want[name][0] + 1, want[name][1] + size]
            else:
                if what == "stdout":
                    await peer.handle_stdout(data)
                else:
                    peer.handle_stderr(data)
                if size:
                    want[what] = [want[what][0] + 1, want[what][1] + size]
            for name, (messages, total) in want.items():
                of = getattr(peer, name + "_metrics")
                sx.check(of.messages.value == messages, name)
                sx.check(of.bytes.value == total, name)

    loop_run(main())


@case("P30", budget=60, bounds="5 bytes of which any end a message")
def read(sx):
    """A program counts the bytes of the messages it reads, once each."""
    peer = Program("p30", {})
    peer.logger, peer.poll_period_s = LOG, 1
    peer.stdin_metrics = still(ChannelMetrics())
    data = sx.bytes("data", 5)
    got = []

    class Processor:
        def messages(self, chunk):
            if bool(chunk[0] == 10):
                yield {}

    async def process(message):
        got.append(message)

    peer.processor, peer.process_json = Processor(), process
    ends = [i for i in range(5) if bool(data[i] == 10)]
    stdin = Stdin()
    stdin.data, stdin.eof = data, True
    loop_run(peer._process_io(stdin))
    sx.check(len(got) == len(ends), "messages")
    sx.check(peer.stdin_metrics.messages.value == len(ends), "counted")
    sx.check(peer.stdin_metrics.bytes.value == (ends[-1] + 1 if ends else 0), "bytes")


@case("P30", bounds="up to 3 changes of a channel to any value")
def events(sx):
    """What is written about changes of channels is counted."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.primitives import Uint16

    channel._metrics_time_ns = lambda: 0
    env, prim = ChannelEnvironment(), Uint16()
    env.channel("a", prim)
    env.finalize()
    metrics = still(ChannelMetrics())
    total, events_ = 0, 0
    with BytesIO() as stream:
        with env.registered(stream, channel=metrics):
            for i in range(3):
                before = len(stream.getvalue())
                env.set("a", sx.int("v%d" % i, 0, 65535))
                now = len(stream.getvalue())
                events_ += 1 if now != before else 0
                total = now
        sx.check(metrics.bytes.value == total, "bytes")
        sx.check(metrics.messages.value == events_ + 1, "events")


@case("P30", budget=40, bounds="up to 4 measurements of 3 loads and weights each")
def system(sx):
    """What's published about the system is what it reports, averaged over time."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.mixins import psutil as mixin

    loads, memory = [], []

    class Process:
        def oneshot(self):
            return contextlib.nullcontext()

        def cpu_percent(self):
            return loads[-1][0]

    old = mixin.psutil
    mixin.psutil = types.SimpleNamespace(
        Process=Process,
        virtual_memory=lambda: types.SimpleNamespace(percent=memory[-1]))
    try:
        env, it = ChannelEnvironment(), mixin.PsutilMixin()
        it.init_psutil(env)
        for i in range(sx.pick("n", [1, 2, 3])):
            loads.append((sx.pick("load%d" % i, [0.0, 50.0, 100.0]),
                          sx.pick("weight%d" % i, [1.0, 3.0])))
            memory.append(sx.pick("memory%d" % i, [25.0, 99.5]))
            it.poll_psutil(loads[-1][1])
            sx.check(env.value("memory_percent") == memory[-1], "memory")
            want = sum(a * b for a, b in loads) / sum(b for _, b in loads)
            sx.check(near(env.value("cpu_percent"), want), "load")
    finally:
        mixin.psutil = old
