"""P13: telemetry: what is streamed, and what is parsed back."""

import io
import math

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.registry import ParsedEvent
from runtimepy.metrics.channel import ChannelMetrics
from runtimepy.primitives import create
from runtimepy.primitives.field.fields import BitFields
from sx.registry import case

ASSUMPTIONS = ["floating-point values are not NaN",
               "the stream's reader and writer have environments with the same "
               "names, identifiers and types"]

KINDS = {"b": "bool", "u8": "uint8", "i16": "int16", "u64": "uint64", "f": "float",
         "s": "int16"}
SIZE = {"bool": 1, "uint8": 1, "int16": 2, "uint64": 8, "float": 4}
BOUNDS = {"uint8": (0, 255), "int16": (-32768, 32767), "uint64": (0, 2 ** 64 - 1)}
T = 2 ** 63


class Clock:
    def __init__(self):
        self.now = 0

    def __call__(self):
        return self.now


def build(clock, names, period=None):
    env = ChannelEnvironment()
    for name in names:
        if name == "w":
            fields = BitFields.new("uint16")
            fields.flag("w.flag")
            fields.field("w.rest", 15)
            fields.raw.time_source = clock
            fields.raw.last_updated_ns = 0
            env.fields.add(fields)
            continue
        prim = type(create(KINDS[name]))(
            time_source=clock, scaling=[5.0, 2.0] if name == "s" else None)
        env.channel(name, prim, min_period_s=period)
    env.finalize()
    return env


def draw(sx, name, label):
    if name == "w":
        return sx.int(label, 0, 65535)
    kind = KINDS[name]
    if kind == "bool":
        return sx.bool(label)
    if kind == "float":
        value = type(create("float")).decode(sx.bytes(label, 4))
        sx.assume(not math.isnan(value))
        return value
    return sx.int(label, *BOUNDS[kind])


def prim(env, name):
    return env.fields.fields[0].raw if name == "w" else env.channels[name].raw


def emitted(env, name, exact=None):
    """The names that report a primitive."""
    return [n for n in (["w.flag", "w.rest"] if name == "w" else [name])
            if exact is None or n in exact]


def encode(sx, env, events):
    """What the stream should hold."""
    out = b""
    for name, stamp, value in events:
        ident = env.channels.names.identifier(name)
        kind = "uint16" if name.startswith("w") else KINDS[name]
        out = out + ident.to_bytes(2, "big") + stamp.to_bytes(8, "big") + \
            type(create(kind)).encode(value)
    return out


def play(sx, env, clock, writes, stream, log, only=None, values=None):
    """Write values, and keep what should be reported."""
    for i, name in enumerate(writes):
        clock.now = clock.now + sx.int("gap%d" % i, 0, T // 8)
        value = draw(sx, name, "value%d" % i)
        raw = prim(env, name)
        changed = sx.concrete(raw.value != value)
        raw.value = value
        if changed:
            log += [(n, clock.now, value) for n in emitted(env, name, only)]


def start(sx, env, clock, names, log, only=None):
    """Give everything a first value; streams report it when registered."""
    now = []
    for name in names:
        clock.now = clock.now + sx.int("start " + name, 0, T // 8)
        raw = prim(env, name)
        value = draw(sx, name, "first " + name)
        raw.value = value
        now += [(n, clock.now, value) for n in emitted(env, name, only)]
    # fields come first
    log += sorted(now, key=lambda e: not e[0].startswith("w"))


MIXES = [["u8", "w"], ["b", "f"], ["s", "u64"], ["i16", "u8"]]


@case("P13", [{"names": m} for m in MIXES], budget=60,
      bounds="every first value and every 2 writes to 2 channels or bit-field words, "
      "at every time")
def streamed(sx, names):
    clock = Clock()
    env = build(clock, names)
    log = []
    start(sx, env, clock, names, log)
    stream, metrics = io.BytesIO(), ChannelMetrics()
    before = {n: len(prim(env, n).callbacks) for n in names}
    with env.registered(stream, channel=metrics) as got:
        sx.check(sorted(got) == sorted(e[0] for e in log), "the names registered")
        writes = [sx.pick("w%d" % i, names) for i in range(2)]
        play(sx, env, clock, writes, stream, log)
    for name in names:
        prim(env, name).value = draw(sx, name, "after " + name)
        sx.check(len(prim(env, name).callbacks) == before[name],
                 "nothing is left registered")
    data = stream.getvalue()
    sx.check(data == encode(sx, env, log), "the events, in order, and nothing else")
    sx.check(metrics.messages.value == len(log), "messages counted")
    sx.check(metrics.bytes.value == len(data), "bytes counted")


@case("P13", [{"names": m, "cuts": 2} for m in MIXES],
      thorough=[{"names": m, "cuts": 3} for m in MIXES[:2]], budget=90,
      bounds="2 events with every value and timestamp, split at every 2 (thorough 3) "
      "places")
def parsed(sx, names, cuts):
    """However a stream is split, the same events come out, and mirror."""
    clock = Clock()
    far, near = build(Clock(), names), build(clock, names)
    events = []
    for i in range(2):
        name = names[i]
        clock.now = sx.int("at%d" % i, 0, T)
        value = draw(sx, name, "value%d" % i)
        events.append((emitted(near, name)[-1], clock.now, value))
    data = encode(sx, near, events)
    at = sorted(sx.size("cut%d" % i, 0, len(data)) for i in range(1))
    for i in range(1, cuts):
        at.append(sx.size("cut%d" % i, at[-1], len(data)))
    got = []
    prev = 0
    for cut in at + [len(data)]:
        got += list(far.parse_event_stream(io.BytesIO(data[prev:cut])))
        done = 0
        # events come out as soon as they're complete
        for name, _, _ in events:
            size = 10 + (2 if name.startswith("w") else SIZE[KINDS[name]])
            if cut >= done + size:
                done += size
            else:
                break
        sx.check(encode(sx, near, got) == data[:done], "as soon as complete")
        prev = cut
    sx.check([e.name for e in got] == [e[0] for e in events], "names")
    for e, (_, stamp, value) in zip(got, events):
        sx.check(e.timestamp == stamp, "timestamp")
        sx.check(sx.eq(e.value, value), "value")
        far.ingest(e)
    for name in names:
        sx.check(bytes(prim(far, name)) == bytes(
            type(prim(far, name)).encode([e.value for e in got
                                          if e.name.split(".")[0] == name][-1])),
            "mirrored")


@case("P13", [{"names": m} for m in MIXES], budget=60,
      bounds="every history of 2 writes to 2 channels or bit-field words")
def mirrored(sx, names):
    """A mirror that ingests everything ends in the same state."""
    clock = Clock()
    env, mirror = build(clock, names), build(Clock(), names)
    start(sx, env, clock, names, [])
    stream = io.BytesIO()
    with env.registered(stream):
        writes = [sx.pick("w%d" % i, names) for i in range(2)]
        play(sx, env, clock, writes, stream, [])
    stream.seek(0)
    for event in mirror.parse_event_stream(stream):
        mirror.ingest(event)
    for name in names:
        sx.check(prim(mirror, name).value == prim(env, name).value, "same state")


@case("P13", [{"n": 3}], thorough=[{"n": 5}], budget=60,
      bounds="every period up to 20 and every 3 (thorough 5) writes up to 15 "
      "nanoseconds apart")
def min_period(sx, n):
    """With a minimum period, events closer than that are left out."""
    clock = Clock()
    env = build(clock, ["u8"])
    chan = env.channels["u8"]
    period = sx.int("period", 1, 20)
    chan.event.min_period_ns = period
    clock.now = sx.int("start", 50, 100)
    chan.raw.value = sx.int("first", 0, 255)
    stream, metrics = io.BytesIO(), ChannelMetrics()
    log = [("u8", clock.now, chan.raw.value)]
    with env.registered(stream, channel=metrics):
        for i in range(n):
            clock.now = clock.now + sx.int("gap%d" % i, 0, 15)
            value = sx.int("value%d" % i, 0, 255)
            changed = sx.concrete(chan.raw.value != value)
            chan.raw.value = value
            if changed and clock.now - log[-1][1] >= period:
                log.append(("u8", clock.now, value))
    sx.check(stream.getvalue() == encode(sx, env, log), "events, spaced out")
    sx.check(metrics.messages.value == len(log), "messages counted")
    sx.check(metrics.bytes.value == 11 * len(log), "bytes counted")


@case("P13", budget=40, bounds="every choice of pattern; exact or not")
def selected(sx):
    clock = Clock()
    names = ["u8", "i16", "w"]
    env = build(clock, names)
    pattern, exact, want = sx.pick("pattern", [
        ("u8", True, ["u8"]), ("8", False, ["u8"]), ("8", True, []),
        ("w", False, ["w.flag", "w.rest"]), ("w.rest", True, ["w.rest"]),
        (".", False, ["w.flag", "w.rest", "u8", "i16"]), ("none", False, [])])
    log = []
    start(sx, env, clock, names, log, only=want)
    stream = io.BytesIO()
    with env.registered(stream, pattern=pattern, exact=exact) as got:
        sx.check(sorted(got) == sorted(want), "what matches is registered")
        play(sx, env, clock, names, stream, log, only=want)
    sx.check(stream.getvalue() == encode(sx, env, log), "only that is reported")


@case("P13", budget=40, bounds="an exception before or after a write; a second "
      "registration at the same time or afterwards")
def contexts(sx):
    clock = Clock()
    env = build(clock, ["u8", "w"])
    first, second = io.BytesIO(), io.BytesIO()
    clock.now = 5
    early = sx.pick("when", ["before", "after"]) == "before"
    try:
        with env.registered(first):
            if sx.pick("nested", [False, True]):
                try:
                    with env.registered(io.BytesIO()):
                        sx.fail("a channel can't have two streams")
                except AssertionError:
                    pass
            if early:
                raise ValueError("leave")
            env["u8"] = sx.int("value", 0, 255)
            raise ValueError("leave")
    except ValueError:
        pass
    for name in ("u8", "w"):
        sx.check(not prim(env, name).callbacks, "nothing is left registered")
    size = len(first.getvalue())
    clock.now = sx.int("later", 6, 1000)
    with env.registered(second) as names:
        sx.check(sorted(names) == ["u8", "w.flag", "w.rest"], "registers again")
        old = env.value("u8")
        new = sx.int("new", 0, 255)
        env["u8"] = new
        sx.check(len(first.getvalue()) == size, "the first stream is left alone")
        events = 3 + (1 if sx.concrete(old != new) else 0)
        want = 2 * 12 + (events - 2) * 11
        sx.check(len(second.getvalue()) == want, "the second has everything")


@case("P13", [{"n": 3}], thorough=[{"n": 5}], budget=40,
      bounds="every order of events from 2 channels")
def by_channel(sx, n):
    events = [ParsedEvent(sx.pick("name%d" % i, ["a", "b"]), sx.int("t%d" % i, 0, T),
                          sx.int("v%d" % i, 0, 255)) for i in range(n)]
    got = ParsedEvent.by_channel(iter(events))
    for name in ("a", "b"):
        want = [e for e in events if e.name == name]
        sx.check(got.get(name, []) == want, "each channel's events, in order")
        sx.check((name in got) == bool(want), "only channels with events")


@case("P13", budget=40, bounds="every identifier that isn't registered")
def unknown_ident(sx):
    """An event of an unknown channel is an error, never another's event."""
    env = build(Clock(), ["u8", "i16"])
    ident = sx.int("ident", 0, 65535)
    sx.assume(ident != 1)
    sx.assume(ident != 2)
    data = ident.to_bytes(2, "big") + sx.bytes("rest", 10)
    try:
        got = list(env.parse_event_stream(io.BytesIO(data)))
        sx.check(got == [], "no event")
    except AssertionError:
        pass
