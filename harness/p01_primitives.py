"""P01: primitive values survive encoding, in the documented layout."""

import sys
from io import BytesIO

from runtimepy.primitives import create
from runtimepy.primitives.byte_order import ByteOrder
from sx.registry import case

ASSUMPTIONS = [
    "struct and ctypes behave as documented (modelled; models validated by "
    "replaying path witnesses on the real modules)",
    "NaN payload bits are outside the claim (canonical NaN only)",
]

INTS = {"int8": (1, True), "int16": (2, True), "int32": (4, True),
        "int64": (8, True), "uint8": (1, False), "uint16": (2, False),
        "uint32": (4, False), "uint64": (8, False)}
FLOATS = {"half": 2, "float": 4, "double": 8}
ORDERS = ["NATIVE", "LITTLE_ENDIAN", "BIG_ENDIAN", "NETWORK"]


def bounds_of(size, signed):
    bits = 8 * size
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def is_little(order):
    return order == "LITTLE_ENDIAN" or (order == "NATIVE" and
                                        sys.byteorder == "little")


def layout(sx, data, value, size, order):
    """data spells value: a reference independent of struct."""
    conds = [len(data) == size]
    if len(data) == size:
        for i in range(size):
            shift = 8 * (i if is_little(order) else size - 1 - i)
            conds.append(data[i] == ((value >> shift) & 0xFF))
    return sx.all(*conds)


def every_path(sx, prim, value, order, check_bytes, same):
    """The instance, class and stream interfaces must agree."""
    cls = type(prim)
    size = prim.kind.size
    data = prim.binary(byte_order=order)
    check_bytes(data, "instance encoding")
    prev = prim.byte_order
    prim.byte_order = order
    try:
        sx.check(sx.eq(bytes(prim), data), "bytes() differs from binary()")
        sx.check(sx.eq(prim.binary(), data), "default order ignored")
    finally:
        prim.byte_order = prev
    sx.check(sx.eq(cls.encode(value, byte_order=order), data),
             "class encoding differs")
    sx.check(sx.eq(prim.kind.encode(value, byte_order=order), data),
             "type encoding differs")
    prev = cls.byte_order
    cls.byte_order = order
    try:
        sx.check(sx.eq(cls.encode(value), data), "class's order ignored")
        sx.check(same(cls.decode(data)), "class's order ignored to decode")
        with BytesIO() as stream:
            cls.write(value, stream)
            sx.check(sx.eq(stream.getvalue(), data), "class's order ignored to write")
            stream.seek(0)
            sx.check(same(cls.read(stream)), "class's order ignored to read")
    finally:
        cls.byte_order = prev
    stream = BytesIO()
    count = prim.to_stream(stream, byte_order=order)
    sx.check(count == size, "to_stream's count")
    count = cls.write(value, stream, byte_order=order)
    sx.check(count == size, "write's count")
    sx.check(sx.eq(stream.getvalue(), data + data), "stream contents")

    tail = sx.bytes("tail", 2)
    stream.write(tail)
    stream.seek(0)
    other = cls()
    got = other.from_stream(stream, byte_order=order)
    sx.check(same(got), "from_stream's value")
    sx.check(same(other.value), "value after from_stream")
    sx.check(same(cls.read(stream, byte_order=order)), "read's value")
    sx.check(sx.eq(stream.read(), tail), "the stream was over- or under-read")
    other = cls()
    usual = other.byte_order
    sx.check(same(other.update(data, byte_order=order)), "update's value")
    stream.seek(0)
    other.from_stream(stream, byte_order=order)
    sx.check(other.byte_order is usual and cls.byte_order is usual,
             "decoding leaves the order as it was")
    sx.check(sx.eq(bytes(other), other.binary(byte_order=usual)), "the usual order")
    sx.check(same(cls.decode(data, byte_order=order)), "decode's value")
    sx.check(same(prim.kind.decode(data, byte_order=order)), "type decode")
    return data


@case("P01", [{"kind": k, "order": o} for k in INTS for o in ORDERS],
      bounds="every value of the kind; every byte order")
def integers(sx, kind, order):
    size, signed = INTS[kind]
    lo, hi = bounds_of(size, signed)
    value = sx.int("value", lo, hi)
    prim = create(kind)
    prim.value = value
    sx.check(prim.value == value, "the value was not stored")
    sx.check(prim.size == size, "size")
    border = ByteOrder[order]
    data = every_path(
        sx, prim, value, border,
        lambda d, what: sx.check(layout(sx, d, value, size, order), what),
        lambda got: got == value)
    sx.observe("data", data)


@case("P01", [{"kind": k, "order": o} for k in INTS for o in ORDERS],
      bounds="every byte string of the kind's size")
def integer_bytes(sx, kind, order):
    size, signed = INTS[kind]
    lo, hi = bounds_of(size, signed)
    data = sx.bytes("data", size)
    prim = create(kind)
    border = ByteOrder[order]
    got = prim.update(data, byte_order=border)
    sx.check(sx.all(got >= lo, got <= hi), "decoded value out of range")
    sx.check(sx.eq(prim.binary(byte_order=border), data), "bytes not reproduced")
    sx.observe("value", got)


@case("P01", [{"kind": k, "order": o} for k in INTS for o in ORDERS],
      bounds="every integer within 8 bits of the range either side")
def out_of_range(sx, kind, order):
    """Encoding never silently truncates: it refuses."""
    size, signed = INTS[kind]
    lo, hi = bounds_of(size, signed)
    span = hi - lo + 1
    value = sx.int("value", lo - 256 * span, hi + 256 * span)
    ok = sx.all(value >= lo, value <= hi)
    cls = type(create(kind))
    try:
        data = cls.encode(value, byte_order=ByteOrder[order])
    except Exception:  # struct.error
        sx.check(sx.no(ok), "an encodable value was refused")
        sx.reach("refused")
        return
    sx.check(ok, "an unencodable value was encoded")
    sx.check(layout(sx, data, value, size, order), "encoding")


@case("P01", [{"order": o} for o in ORDERS], bounds="both values; every byte")
def booleans(sx, order):
    value = sx.bool("value")
    prim = create("bool")
    prim.value = value
    border = ByteOrder[order]
    every_path(
        sx, prim, value, border,
        lambda d, what: sx.check(sx.eq(d, b"\x01" if value else b"\x00"), what),
        lambda got: got == value)
    data = sx.bytes("data", 1)
    sx.check(sx.iff(prim.update(data, byte_order=border), data[0] != 0),
             "a non-zero byte is true")


@case("P01", [{"kind": k, "order": o} for k in FLOATS for o in ORDERS],
      bounds="every byte string of the kind's size except NaN payloads",
      query_ms=20000)
def float_bytes(sx, kind, order):
    """Decoding then encoding reproduces every non-NaN byte string."""
    size = FLOATS[kind]
    data = sx.bytes("data", size)
    border = ByteOrder[order]
    prim = create(kind)
    got = prim.kind.decode(data, byte_order=border)
    if got != got:
        sx.reach("nan")
        again = prim.kind.encode(got, byte_order=border)
        sx.check(prim.kind.decode(again, byte_order=border) != 0.0, "NaN kept")
        return
    prim.update(data, byte_order=border)
    sx.check(sx.eq(prim.value, got), "stored value")
    sx.check(sx.eq(prim.binary(byte_order=border), data), "bytes not reproduced")
    sx.check(sx.eq(prim.kind.encode(got, byte_order=border), data), "type encode")


@case("P01", [{"order": o} for o in ORDERS],
      bounds="every double, NaN canonical", query_ms=20000)
def doubles(sx, order):
    value = sx.float("value")
    prim = create("double")
    prim.value = value
    border = ByteOrder[order]
    every_path(
        sx, prim, value, border,
        lambda d, what: sx.check(len(d) == 8, what),
        lambda got: sx.eq(got, value))
