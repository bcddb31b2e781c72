"""P06: length-prefixed strings and chunks."""

from io import BytesIO

from runtimepy.primitives import create, normalize
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk
from runtimepy.primitives.string import StringPrimitive
from sx.registry import case

ASSUMPTIONS = ["strings are Unicode scalar values (no lone surrogates)"]

PREFIX = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8}
ORDERS = ["LITTLE_ENDIAN", "NETWORK"]


def number(sx, value, size, order):
    data = value.to_bytes(size, "little" if order == "LITTLE_ENDIAN" else "big")
    return data


@case("P06", [{"kind": k, "order": o, "n": n} for k in PREFIX for o in ORDERS
              for n in (0, 1, 2)],
      thorough=[{"kind": k, "order": o, "n": n} for k in PREFIX for o in ORDERS
                for n in range(5)],
      bounds="every string of up to 2 (thorough 4) characters, all of Unicode")
def string(sx, kind, order, n):
    """A written string is its encoded length then exactly that many bytes."""
    text = sx.str("text", n, hi=0x10FFFF)
    raw = text.encode()
    trailer = sx.bytes("trailer", 2)
    order_ = ByteOrder[order]
    how = sx.pick("how", ["init", "set"])
    if how == "init":
        prim = StringPrimitive(text, kind=normalize(kind), byte_order=order_)
    else:
        prim = StringPrimitive("x", kind=normalize(kind), byte_order=order_)
        prim.set(text)
    size = PREFIX[kind] + len(raw)
    sx.check(prim.size == size, "size")
    with BytesIO() as stream:
        sx.check(prim.write(stream) == size, "bytes written")
        data = stream.getvalue()
        sx.check(sx.eq(data, number(sx, len(raw), PREFIX[kind], order) + raw),
                 "layout")
        stream.write(trailer)
        stream.seek(0)
        again = StringPrimitive.from_stream(stream, kind=normalize(kind),
                                            byte_order=order_)
        sx.check(stream.tell() == size, "consumes itself and no more")
        sx.check(sx.eq(stream.read(), trailer), "trailer intact")
    sx.check(sx.eq(again.value, text), "round trip")
    sx.check(again.size == size, "size after reading")
    sx.check(again == prim, "equal")


@case("P06", [{"lens": [1, 0, 2]}, {"lens": [2, 1]}],
      bounds="every sequence of strings of these lengths, all of Unicode")
def strings(sx, lens):
    """Strings written one after another are read back one after another."""
    texts = [sx.str("t%d" % i, n, hi=0x10FFFF) for i, n in enumerate(lens)]
    with BytesIO() as stream:
        for t in texts:
            StringPrimitive(t).write(stream)
        stream.seek(0)
        got = [StringPrimitive.from_stream(stream).value for _ in texts]
        sx.check(stream.read() == b"", "nothing left")
    sx.check(sx.eq(got, texts), "same strings")


@case("P06", [{"kind": k, "n": n, "order": o} for k in PREFIX
              for n in (0, 1, 5) for o in ORDERS],
      bounds="every content of 0, 1 and 5 bytes")
def prefixed(sx, kind, n, order):
    data = sx.bytes("data", n)
    chunk = PrefixedChunk(create(kind), byte_order=ByteOrder[order])
    sx.check(chunk.size == PREFIX[kind], "starts empty")
    size = PREFIX[kind] + n
    sx.check(chunk.update(data) == size, "update returns the size")
    sx.check(chunk.size == size and chunk.length() == size, "size")
    want = number(sx, n, PREFIX[kind], order) + data
    sx.check(sx.eq(bytes(chunk), want), "layout")
    other = PrefixedChunk(create(kind), byte_order=ByteOrder[order])
    with BytesIO() as stream:
        sx.check(chunk.to_stream(stream) == size, "written")
        stream.write(b"tail")
        stream.seek(0)
        sx.check(other.from_stream(stream) == size, "read")
        sx.check(stream.tell() == size, "not a byte more")
    sx.check(sx.eq(bytes(other), want), "round trip")
    third = chunk.copy()
    sx.check(sx.eq(bytes(third), want), "copy")
    sx.check(third.size == size, "copy's size")
    third.update(b"changed")
    sx.check(sx.eq(bytes(chunk), want), "original not disturbed")
    # any number of updates, shorter and longer
    for size in (7, 0, n):
        third.update(b"changed"[:size])
        sx.check(third.size == PREFIX[kind] + size, "size after an update")
        sx.check(sx.eq(bytes(third), number(sx, size, PREFIX[kind], order)
                       + b"changed"[:size]), "updated again")


@case("P06", [{"n": n} for n in (254, 255, 256, 300)],
      bounds="lengths around the limit of a one-byte prefix; every first and "
      "last byte")
def prefix_limit(sx, n):
    """A chunk too long for its prefix is refused, never truncated."""
    chunk = PrefixedChunk(create("uint8"))
    data = sx.bytes("a", 1) + bytes(n - 2) + sx.bytes("b", 1)
    try:
        chunk.update(data)
        ok = True
    except Exception:
        ok = False
    sx.check(ok == (n <= 255), "accepted exactly when it fits")
    if ok:
        sx.check(sx.eq(bytes(chunk), bytes([n]) + data), "layout")


@case("P06", [{"n": n} for n in (1, 4)],
      bounds="every content; every cut of the stream")
def truncated(sx, n):
    """A chunk cut short is refused rather than returned short."""
    data = sx.bytes("data", n)
    cut = sx.size("cut", 1, n)
    chunk = PrefixedChunk(create("uint16"))
    chunk.update(data)
    raw = bytes(chunk)
    other = PrefixedChunk(create("uint16"))
    with BytesIO(raw[:len(raw) - cut]) as stream:
        try:
            other.from_stream(stream)
        except Exception:
            return
    sx.fail("a truncated chunk was accepted")


@case("P06", [{"parts": [0, 3, 1]}, {"parts": [2, 2]}],
      bounds="every content of chains of chunks of these lengths")
def chained(sx, parts):
    """Chunks of different lengths in a chain stay apart."""
    datas = [sx.bytes("d%d" % i, n) for i, n in enumerate(parts)]

    def chain():
        head = PrefixedChunk.create()
        for _ in parts[1:]:
            head.add_to_end(PrefixedChunk.create())
        return head

    def members(head):
        out = []
        while head is not None:
            out.append(head)
            head = head.chain
        return out

    head = chain()
    for c, d in zip(members(head), datas):
        c.update(d)
    with BytesIO() as stream:
        head.to_stream(stream)
        total = stream.tell()
        sx.check(head.length() == total, "length")
        stream.seek(0)
        other = chain()
        sx.check(other.from_stream(stream) == total, "read")
    got = [bytes(c)[2:] for c in members(other)]
    sx.check(sx.eq(got, datas), "contents")


@case("P06", [{"n": n} for n in (0, 4)], bounds="every content")
def fixed(sx, n):
    data, new = sx.bytes("data", n), sx.bytes("new", n)
    chunk = FixedChunk(data)
    sx.check(chunk.size == n and sx.eq(bytes(chunk), data), "content")
    other = chunk.copy()
    with BytesIO(new + b"x") as stream:
        sx.check(chunk.from_stream(stream) == n, "read")
        sx.check(stream.tell() == n, "not a byte more")
    sx.check(sx.eq(bytes(chunk), new), "updated")
    sx.check(sx.eq(bytes(other), data), "copy not disturbed")
