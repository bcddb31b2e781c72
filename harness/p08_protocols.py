"""P08: protocols: layout, values, copies, JSON."""

from copy import copy
from io import BytesIO

from runtimepy.codec.protocol import Protocol, ProtocolFactory
from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives import create
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable import PrefixedChunk
from sx.registry import case

ASSUMPTIONS = ["field names are well-formed and distinct"]

SIZE = {"uint8": 1, "uint16": 2, "uint32": 4, "int8": 1, "int16": 2, "int64": 8,
        "bool": 1}
ITEMS = {"off": 0, "low": 1, "high": 2, "max": 200}
ORDERS = ["LITTLE_ENDIAN", "NETWORK", "NATIVE"]

# what a protocol may be built from, each with a size
PARTS = ["u8", "i16", "enum", "wide_enum", "array", "bits8", "bits16", "bool"]
BUILDS = [["u8", "bits8", "enum"], ["bits16", "i16"], ["array", "u8", "bits8"],
          ["enum", "bool", "bits16", "bits8"], ["wide_enum", "array"],
          ["flag", "enum"]]
STRUCT = [["u8", "chunk", "i16"], ["chunk", "bits8"], ["nested", "u8"],
          ["u8", "nested3", "bits16"], ["chunk2", "nested", "chunk"]]


def registry():
    reg = EnumRegistry()
    reg.enum("mode", "int", items=dict(ITEMS))
    reg.enum("power", "bool", items={"down": False, "up": True})
    return reg


def nested():
    """Two arrays chained to each other."""
    head = PrimitiveArray(create("uint16"))
    head.add_to_end(PrimitiveArray(create("uint8"), create("int8")))
    return head


def build(parts, order):
    proto = Protocol(registry(), byte_order=ByteOrder[order], identifier=7)
    for i, part in enumerate(parts):
        name = "f%d" % i
        if part == "u8":
            proto.add_field(name, "uint8")
        elif part == "i16":
            proto.add_field(name, "int16")
        elif part == "bool":
            proto.add_field(name, "bool")
        elif part == "enum":
            proto.add_field(name, enum="mode")
        elif part == "wide_enum":
            proto.add_field(name, "uint32", enum="mode")
        elif part == "array":
            proto.add_field(name, "uint16", array_length=3)
        elif part == "bits8":
            with proto.add_bit_fields() as fields:
                fields.flag(name + ".a", enum="power")
                fields.field(name + ".b", 2, enum="mode", index=1)
                fields.flag(name + ".c", index=7)
        elif part == "flag":
            with proto.add_bit_fields() as fields:
                fields.flag(name + ".f", enum="power")
        elif part == "bits16":
            with proto.add_bit_fields("uint16") as fields:
                fields.field(name + ".d", 11)
                fields.flag(name + ".e")
        elif part == "chunk":
            proto.add_serializable(name, PrefixedChunk.create("uint8"))
        elif part == "chunk2":
            proto.add_serializable(name, PrefixedChunk.create("uint8"),
                                   array_length=2)
        elif part == "nested":
            proto.add_serializable(name, nested())
        elif part == "nested3":
            proto.add_serializable(name, nested(), array_length=3)
    return proto


WIDTH = {"u8": 1, "i16": 2, "bool": 1, "enum": 1, "wide_enum": 4, "array": 6,
         "bits8": 1, "flag": 1, "bits16": 2, "chunk": 1, "chunk2": 2, "nested": 4,
         "nested3": 12}


def fill(sx, proto, parts, tag=""):
    """Assign every field; returns what each should read back."""
    want = {}
    for i, part in enumerate(parts):
        name = "f%d" % i
        var = tag + name
        if part in ("u8", "array"):
            want[name] = sx.int(var, 0, 255)
            proto[name] = want[name]
        elif part == "i16":
            want[name] = sx.int(var, -32768, 32767)
            proto[name] = want[name]
        elif part == "bool":
            want[name] = sx.bool(var)
            proto[name] = want[name]
        elif part in ("enum", "wide_enum"):
            want[name] = sx.pick(var, list(ITEMS))
            proto[name] = want[name]
        elif part == "bits8":
            want[name + ".a"] = sx.pick(var + ".a", ["down", "up"])
            want[name + ".b"] = sx.pick(var + ".b", ["off", "low", "high"])
            want[name + ".c"] = sx.bool(var + ".c")
            for n in "abc":
                proto[name + "." + n] = want[name + "." + n]
        elif part == "flag":
            want[name + ".f"] = sx.pick(var + ".f", ["down", "up"])
            proto[name + ".f"] = want[name + ".f"]
        elif part == "bits16":
            want[name + ".d"] = sx.int(var + ".d", 0, 2047)
            want[name + ".e"] = sx.bool(var + ".e")
            for n in "de":
                proto[name + "." + n] = want[name + "." + n]
    return want


def reads(sx, proto, want, what):
    for name, value in want.items():
        got = proto[name]
        if type(value) is str:
            sx.check(sx.eq(got, value), what + ": " + name)
        else:
            sx.check(got == value, what + ": " + name)


def data_of(proto):
    with BytesIO() as stream:
        proto.array.to_stream(stream)
        return stream.getvalue()


@case("P08", [{"parts": b, "order": o} for b in BUILDS for o in ORDERS],
      bounds="five layouts, three byte orders; every value of every field")
def round_trip(sx, parts, order):
    """Encoded values come back by name; the size is the parts' sum."""
    proto = build(parts, order)
    want = fill(sx, proto, parts)
    reads(sx, proto, want, "set")
    total = sum(WIDTH[p] for p in parts)
    sx.check(proto.size == total, "size")
    data = data_of(proto)
    sx.check(len(data) == total, "encoded size")
    other = build(parts, order)
    with BytesIO(data) as stream:
        sx.check(other.array.from_stream(stream) == total, "consumed")
    reads(sx, other, want, "decoded")
    sx.check(sx.eq(data_of(other), data), "re-encoded")
    # fields are laid out in the order they were added
    offset = 0
    little = order != "NETWORK"
    for i, part in enumerate(parts):
        name = "f%d" % i
        if part in ("u8", "i16"):
            n = WIDTH[part]
            spelled = (want[name] + (1 << 8 * n)) & ((1 << 8 * n) - 1)
            sx.check(sx.eq(data[offset:offset + n],
                           spelled.to_bytes(n, "little" if little else "big")),
                     "position of " + name)
        if part in ("enum", "wide_enum"):
            n = WIDTH[part]
            spelled = ITEMS[want[name]]
            sx.check(sx.eq(data[offset:offset + n],
                           spelled.to_bytes(n, "little" if little else "big")),
                     "position of " + name)
        offset += WIDTH[part]


@case("P08", [{"parts": b} for b in BUILDS + STRUCT],
      bounds="ten layouts (nested, repeated and variable-size members "
      "included); every value of every field; copies of copies")
def copies(sx, parts):
    """A copy has the same layout and identity and shares no storage."""
    proto = build(parts, "LITTLE_ENDIAN")
    depth = sx.size("depth", 1, 2)
    other = proto
    for _ in range(depth):
        other = copy(other)
    sx.check(other.size == proto.size == sum(WIDTH[p] for p in parts), "size")
    sx.check(other.id == proto.id, "identifier")
    sx.check(other.array.byte_order == proto.array.byte_order, "byte order")
    before = data_of(proto)
    want = fill(sx, other, parts)
    sx.check(sx.eq(data_of(proto), before), "setting a copy leaves the original")
    filled = data_of(other)
    with BytesIO(filled) as stream:
        proto.array.from_stream(stream)
    reads(sx, proto, want, "a copy's data decoded by the original")
    sx.check(sx.eq(data_of(proto), filled), "same layout")
    for i, part in enumerate(parts):
        if part.startswith("chunk"):
            text = sx.str("text%d" % i, 2)
            other["f%d" % i] = text
            sx.check(sx.eq(other["f%d" % i], text), "chunk set")
            sx.check(other.size == proto.size + 2, "grown by it")
            sx.check(sx.eq(data_of(proto), filled), "original's chunk untouched")
            break
    other.add_field("extra", "uint16")
    with other.add_bit_fields() as fields:
        fields.flag("more")
    total = sum(WIDTH[p] for p in parts)
    sx.check(sx.eq(data_of(proto), filled) and proto.size == total,
             "members added to a copy are its own")
    sx.check(copy(proto).size == total, "also for later copies")


@case("P08", [{"parts": b, "resolve": r} for b in BUILDS for r in (True, False)],
      bounds="five layouts; every value of every field; exported with names "
      "or numbers for enumerations", budget=60)
def json(sx, parts, resolve):
    """An exported protocol comes back with its layout and values."""
    proto = build(parts, "LITTLE_ENDIAN")
    want = fill(sx, proto, [p for p in parts])
    exported = proto.export_json(resolve_enum=resolve)
    keys = sorted(exported)
    again = Protocol.import_json(exported)
    sx.check(sorted(exported) == keys, "the data imported is left alone")
    sx.check(again.id == proto.id, "identifier")
    sx.check(again.array.byte_order == proto.array.byte_order, "byte order")
    sx.check(again.size == proto.size, "size")
    reads(sx, again, want, "imported")
    for name in want:
        sx.check(again.names.identifier(name) == proto.names.identifier(name),
                 "identifier of " + name)
    # decoding data works the same
    fresh = fill(sx, proto, parts, "again.")
    with BytesIO(data_of(proto)) as stream:
        again.array.from_stream(stream)
    reads(sx, again, fresh, "decoded after import")
    third = Protocol.import_json(again.export_json(resolve_enum=resolve))
    reads(sx, third, fresh, "exported again")
    sx.check(third.size == proto.size, "size after a second export")


@case("P08", bounds="every text of two lengths; trailing fields of every value")
def variable(sx):
    """A member of variable size does not disturb what follows it."""
    parts = ["u8", "chunk", "i16"]
    proto, other = build(parts, "NETWORK"), build(parts, "NETWORK")
    want = fill(sx, proto, parts)
    text = sx.str("text", sx.size("n", 0, 3))
    proto["f1"] = text
    data = data_of(proto)
    sx.check(len(data) == proto.size == 4 + len(text), "size")
    with BytesIO(data + b"?") as stream:
        sx.check(other.array.from_stream(stream) == len(data), "consumed")
    reads(sx, other, want, "decoded")
    sx.check(sx.eq(other["f1"], text), "text")


@case("P08", bounds="every value in one of two instances")
def factory(sx):
    """A factory's instances are alike and independent."""

    class Sample(ProtocolFactory):
        protocol = Protocol(EnumRegistry())
        count = 0

        @classmethod
        def initialize(cls, protocol):
            cls.count += 1
            protocol.add_field("a", "uint8")
            with protocol.add_bit_fields() as fields:
                fields.field("b", 3)
            protocol.add_serializable("c", PrefixedChunk.create())

    one, two = Sample.instance(), Sample.instance()
    sx.check(Sample.count == 1, "populated once")
    a, b = sx.int("a", 0, 255), sx.int("b", 0, 7)
    one["a"] = a
    one["b"] = b
    one["c"] = "xy"
    sx.check(two["a"] == 0 and two["b"] == 0 and two.size == 4, "independent")
    three = Sample.instance()
    sx.check(three["a"] == 0 and three["b"] == 0 and three.size == 4, "pristine")
    sx.check(one["a"] == a and one["b"] == b and one.size == 6, "kept")
    sx.check(Sample.singleton() is Sample.singleton(), "one singleton")


@case("P08", [{"parts": b} for b in BUILDS + STRUCT],
      bounds="every name in ten layouts added again as each kind of member")
def duplicates(sx, parts):
    """A name is used once; a refused member changes nothing."""
    proto = build(parts, "NETWORK")
    names = list(proto.names.registered_order)
    name = sx.pick("name", names)
    kind = sx.pick("kind", ["u8", "chunk", "flag"])
    size = proto.size
    try:
        if kind == "u8":
            proto.add_field(name, "uint8")
        elif kind == "chunk":
            proto.add_serializable(name, PrefixedChunk.create("uint8"))
        else:
            with proto.add_bit_fields() as fields:
                fields.flag(name)
        ok = True
    except AssertionError:
        ok = False
    sx.check(not ok, "a name was used twice")
    sx.check(proto.size == size and list(proto.names.registered_order) == names,
             "unchanged")
    twin = copy(proto)
    sx.check(twin.size == size, "copies are not affected")


@case("P08", bounds="unknown members and enumeration names")
def refused(sx):
    """Unknown names are refused and change nothing."""
    proto = build(["u8", "enum", "bits8"], "NETWORK")
    fill(sx, proto, ["u8", "enum", "bits8"])
    before = data_of(proto)
    what = sx.pick("what", ["name", "word", "bitword"])
    try:
        if what == "name":
            proto["nope"] = 1
        elif what == "word":
            proto["f1"] = "nope"
        else:
            proto["f2.b"] = "nope"
        ok = True
    except (KeyError, ValueError):
        ok = False
    sx.check(not ok, "refused")
    sx.check(sx.eq(data_of(proto), before), "unchanged")
