"""P07: framing of samples into transmission units."""

from runtimepy.primitives import normalize
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.serializable import FixedChunk
from runtimepy.primitives.serializable.framer import SerializableFramer
from sx.registry import case

ASSUMPTIONS = []

KINDS = {1: ["uint8"], 3: ["uint8", "int16"], 7: ["uint32", "bool", "uint16"]}


def instance(size):
    return PrimitiveArray(*[normalize(k)() for k in KINDS[size]])


def fill(sx, array, name):
    for i, k in enumerate(KINDS[array.size]):
        if k == "bool":
            array[i].value = sx.bool("%s.%d" % (name, i))
        elif k == "int16":
            array[i].value = sx.int("%s.%d" % (name, i), -32768, 32767)
        else:
            bits = int(k[4:])
            array[i].value = sx.int("%s.%d" % (name, i), 0, (1 << bits) - 1)


@case("P07", [{"size": s} for s in KINDS],
      bounds="every unit size up to 70000 and every overhead up to 200 bytes")
def capacity(sx, size):
    """A frame holds as many whole elements as fit, and at least one."""
    mtu = sx.int("mtu", 0, 70000)
    overhead = sx.int("overhead", 0, 200)
    framer = SerializableFramer(instance(size), 70000)
    try:
        got = framer.set_mtu(mtu, protocol_overhead=overhead)
    except AssertionError:
        sx.check(mtu - overhead < size, "refused only when nothing fits")
        return
    sx.check(got >= 1, "at least one")
    sx.check(got * size + overhead <= mtu, "fits")
    sx.check((got + 1) * size + overhead > mtu, "no room left for another")


@case("P07", [{"size": 1, "steps": 5}, {"size": 3, "steps": 4}, {"size": 7, "steps": 4}],
      thorough=[{"size": s, "steps": 6} for s in KINDS],
      bounds="units of 1 to 3 elements; every sequence of 4 or 5 (6) calls with "
      "every combination of sample and flush; every element value")
def frames(sx, size, steps):
    """Every sample leaves once, whole and in order; frames fit the unit."""
    array = instance(size)
    per = sx.size("per", 1, 3)
    slack = sx.pick("slack", [0] if size == 1 else [0, size - 1])
    framer = SerializableFramer(array, per * size + slack)
    held, sent, took = [], [], []
    for i in range(steps):
        fill(sx, array, "s%d" % i)
        sample = sx.concrete(sx.bool("sample%d" % i))
        flush = sx.concrete(sx.bool("flush%d" % i))
        if sample:
            held.append(bytes(array))
            took.append(bytes(array))
        out = framer.capture(sample=sample, flush=flush)
        due = held and (flush or len(held) == per)
        if due:
            sx.check(out is not None, "a full or flushed frame is returned")
            sx.check(len(out) <= per * size, "never larger than the unit")
            sx.check(sx.eq(out, b"".join(held)), "whole samples, in order")
            sent.extend(held)
            held = []
        else:
            sx.check(out is None, "nothing is returned early, or empty")
    rest = framer.capture(sample=False, flush=True)
    sx.check(sx.eq(rest or b"", b"".join(held)), "the rest on request")
    sx.check(framer.capture(sample=False, flush=True) is None, "then nothing")
    sx.check(sx.eq(sent + held, took), "each sample exactly once")


@case("P07", [{"size": s} for s in KINDS], bounds="every element value")
def chain(sx, size):
    """An element with members chained to it is framed whole."""
    array = instance(size)
    array.add_to_end(FixedChunk(sx.bytes("chunk", 2)))
    fill(sx, array, "a")
    framer = SerializableFramer(array, 2 * (size + 2) + 1)
    sx.check(framer.length == 2, "capacity counts the chain")
    sx.check(framer.capture() is None, "not full")
    first = bytes(array) + bytes(array.chain)
    fill(sx, array, "b")
    second = bytes(array) + bytes(array.chain)
    sx.check(sx.eq(framer.capture(), first + second), "whole chains")
