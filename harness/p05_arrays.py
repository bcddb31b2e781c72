"""P05: arrays of primitives and chains of them."""

from io import BytesIO

from runtimepy.primitives import normalize
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable import FixedChunk
from sx.registry import case

ASSUMPTIONS = ["struct behaves as documented (modelled)"]

ORDERS = ["NATIVE", "LITTLE_ENDIAN", "BIG_ENDIAN", "NETWORK"]
INT = {"int8": (1, True), "int16": (2, True), "int32": (4, True),
       "int64": (8, True), "uint8": (1, False), "uint16": (2, False),
       "uint32": (4, False), "uint64": (8, False)}
SIZE = dict({k: v[0] for k, v in INT.items()}, bool=1, half=2, float=4, double=8)
MIXES = [["uint8", "uint32", "int16"], ["uint16", "bool", "uint64", "int8"],
         ["int8", "double", "bool"], ["float", "uint8", "half"],
         ["uint64"], ["bool", "bool", "int32", "uint8", "uint16"]]


def create(kind, **kwargs):
    return normalize(kind)(**kwargs)


def draw(sx, kind, name):
    if kind == "bool":
        return sx.bool(name)
    if kind == "double":
        return sx.float(name)
    if kind in ("float", "half"):
        # every value the format holds
        v = normalize(kind).decode(sx.bytes(name, SIZE[kind]))
        sx.assume(v == v)
        return v
    size, signed = INT[kind]
    if signed:
        return sx.int(name, -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
    return sx.int(name, 0, (1 << 8 * size) - 1)


def draws(sx, kinds, prefix="v"):
    return [draw(sx, k, "%s%d" % (prefix, i)) for i, k in enumerate(kinds)]


def make(kinds, order, values=None):
    array = PrimitiveArray(*[create(k) for k in kinds], byte_order=order)
    if values is not None:
        for i, v in enumerate(values):
            array[i].value = v
    return array


def values_of(array, count):
    return [array[i].value for i in range(count)]


def joined(sx, kinds, values, order):
    """A reference: each element's own encoding, one after another."""
    out = b""
    for k, v in zip(kinds, values):
        out = out + create(k, value=v).binary(byte_order=order)
    return out


MIXED = [{"kinds": m, "order": o} for m in MIXES for o in ORDERS]


@case("P05", MIXED, bounds="every value of each element of six element lists")
def encoding(sx, kinds, order):
    """An array is its elements one after another, without padding."""
    order = ByteOrder[order]
    values = draws(sx, kinds)
    array = make(kinds, order, values)
    total = sum(SIZE[k] for k in kinds)
    sx.check(array.size == total, "size is the sum of the elements' sizes")
    sx.check(array.length() == total, "length")
    data = bytes(array)
    sx.check(len(data) == total, "encoded size")
    sx.check(sx.eq(data, joined(sx, kinds, values, order)), "layout")
    other = make(kinds, order)
    sx.check(other.update(data) == total, "consumes its size")
    sx.check(sx.eq(values_of(other, len(kinds)), values), "decoded")
    with BytesIO() as stream:
        sx.check(array.to_stream(stream) == total, "written")
        stream.write(b"\xff")
        stream.seek(0)
        third = make(kinds, order)
        sx.check(third.from_stream(stream) == total, "read")
        sx.check(stream.tell() == total, "not a byte more")
    sx.check(sx.eq(values_of(third, len(kinds)), values), "streamed")
    # positions
    offset = 0
    for i, k in enumerate(kinds):
        sx.check(array.byte_at_index(i) == offset, "byte of an element")
        sx.check(array.index_at_byte(offset) == i, "element at a byte")
        offset += SIZE[k]
    sx.check(array.byte_at_index(len(kinds)) == total, "end")


@case("P05", [{"kinds": m} for m in MIXES[:4]],
      bounds="every value; every wrong length from none to one too many")
def wrong_length(sx, kinds):
    """Data of the wrong length is refused and changes nothing."""
    values = draws(sx, kinds)
    array = make(kinds, ByteOrder.NETWORK, values)
    n = sx.size("n", 0, array.size + 1)
    sx.assume(n != array.size)
    data = sx.bytes("data", n)
    try:
        array.update(data)
        sx.fail("accepted")
    except Exception as exc:
        sx.check(type(exc).__name__ == "error", "struct error")
    sx.check(sx.eq(values_of(array, len(kinds)), values), "nothing changed")


@case("P05", [{"kind": k, "count": n} for k in ("uint8", "int16", "uint64", "bool")
              for n in (1, 2, 4)], bounds="every value of up to 4 repeated elements")
def repeated(sx, kind, count):
    """A repeated element is that many separate, addressable elements."""
    lead = draw(sx, "uint16", "lead")
    array = PrimitiveArray(create("uint16", value=lead))
    base = draw(sx, kind, "base")
    end = array.add(create(kind, value=base), array_length=count)
    sx.check(end == 2 + count * SIZE[kind], "returns the new size")
    sx.check(array.size == end and array.length() == end, "size")
    sx.check(sx.eq(values_of(array, count + 1), [lead] + [base] * count),
             "all start with the value given")
    for i in range(count + 1):
        sx.check(array.byte_at_index(i + 1) == 2 + i * SIZE[kind], "position")
        sx.check(array.index_at_byte(2 + i * SIZE[kind]) == i + 1, "element")
    which = sx.size("which", 1, count)
    new = draw(sx, kind, "new")
    array[which].value = new
    want = [lead] + [base] * count
    want[which] = new
    sx.check(sx.eq(values_of(array, count + 1), want), "separate storage")
    frag = array.fragment_from_indices(which, which + 1)
    sx.check(sx.eq(array.fragment_bytes(frag), create(kind, value=new).binary()),
             "addressable")
    more = PrimitiveArray()
    sx.check(more.add_primitive(kind, array_length=count) == count * SIZE[kind],
             "by name of type")


@case("P05", [{"kinds": m, "order": o} for m in MIXES for o in ("LITTLE_ENDIAN",
                                                               "NETWORK")],
      bounds="every value; every contiguous range of elements")
def fragments(sx, kinds, order):
    """A fragment is a window onto the same elements."""
    order = ByteOrder[order]
    values = draws(sx, kinds)
    array = make(kinds, order, values)
    n = len(kinds)
    start = sx.size("start", 0, n - 1)
    end = sx.size("end", start + 1, n)
    lo, hi = array.byte_at_index(start), array.byte_at_index(end)
    if sx.bool("by_bytes"):
        idx = array.fragment_from_byte_indices(
            lo, -1 if end == n and sx.bool("open") else hi)
    else:
        idx = array.fragment_from_indices(
            start, -1 if end == n and sx.bool("open") else end)
    sx.check(array.num_fragments == 1 and idx == 0, "numbered")
    whole = bytes(array)
    sx.check(sx.eq(array.fragment_bytes(idx), whole[lo:hi]), "its bytes")
    fresh = draws(sx, kinds, "w")
    part = joined(sx, kinds[start:end], fresh[start:end], order)
    array.update_fragment(idx, part)
    want = values[:start] + fresh[start:end] + values[end:]
    sx.check(sx.eq(values_of(array, n), want), "updates only its elements")
    # a copy keeps the fragment, over its own elements
    other = array.copy()
    sx.check(other.num_fragments == 1, "copied fragment")
    other.update_fragment(idx, joined(sx, kinds[start:end], values[start:end], order))
    sx.check(sx.eq(values_of(other, n), values), "copy updated")
    sx.check(sx.eq(values_of(array, n), want), "original not disturbed")
    array.reset()
    sx.check(array.size == 0 and array.num_fragments == 0 and bytes(array) == b"",
             "reset")
    array.add(create("uint16", value=7))
    other = array.copy()
    sx.check(other.size == 2 and other.num_fragments == 0 and bytes(other) == bytes(array),
             "a copy after that is like it")


@case("P05", [{"parts": [["uint8", "int16"], ["uint32"], ["bool", "uint8"]]},
              {"parts": [["uint64"], ["int8"]]}],
      bounds="every value in chains of two and three arrays")
def chains(sx, parts):
    """A chain is its members one after another; copies share nothing."""
    values = [draws(sx, p, "p%d_" % i) for i, p in enumerate(parts)]
    arrays = [make(p, ByteOrder.NETWORK, v) for p, v in zip(parts, values)]
    head = arrays[0]
    for a in arrays[1:]:
        sx.check(head.add_to_end(a) == a.size, "size added")
    flat = [k for p in parts for k in p]
    flatv = [v for p in values for v in p]
    total = sum(SIZE[k] for k in flat)
    sx.check(head.length() == total, "length of the chain")
    sx.check(head.end is arrays[-1], "end")
    with BytesIO() as stream:
        sx.check(head.to_stream(stream) == total, "written")
        data = stream.getvalue()
    sx.check(sx.eq(data, joined(sx, flat, flatv, ByteOrder.NETWORK)), "layout")
    other = head.copy()
    sx.check(other.length() == total, "copy has the same length")
    with BytesIO() as stream:
        other.to_stream(stream)
        sx.check(sx.eq(stream.getvalue(), data), "copy has the same values")
    blank = [make(p, ByteOrder.NETWORK) for p in parts]
    for a in blank[1:]:
        blank[0].add_to_end(a)
    with BytesIO() as stream:
        stream.write(data)
        stream.write(b"\x01\x02")
        stream.seek(0)
        sx.check(blank[0].from_stream(stream) == total, "read")
        sx.check(stream.tell() == total, "not a byte more")
    got = [v for a, p in zip(blank, parts) for v in values_of(a, len(p))]
    sx.check(sx.eq(got, flatv), "decoded")
    # the copy shares no storage
    item = other
    for part in parts:
        for i in range(len(part)):
            item[i].value = 0 if part[i] != "bool" else False
        item = item.chain
    again = [v for a, p in zip(arrays, parts) for v in values_of(a, len(p))]
    sx.check(sx.eq(again, flatv), "original not disturbed by its copy")


@case("P05", [{"n": n} for n in (1, 3)], bounds="every value")
def chained_repeats(sx, n):
    """Repeating a member of a chain yields separate members."""
    head = make(["uint8"], ByteOrder.NETWORK, [sx.int("h", 0, 255)])
    base = make(["int16"], ByteOrder.NETWORK, [draw(sx, "int16", "b")])
    first = bytes(base)
    sx.check(head.add_to_end(base, array_length=n) == 2 * n, "size added")
    sx.check(head.length() == 1 + 2 * n, "length")
    new = draw(sx, "int16", "new")
    base[0].value = new
    with BytesIO() as stream:
        head.to_stream(stream)
        data = stream.getvalue()
    sx.check(sx.eq(data[1:3], bytes(base)), "first")
    sx.check(sx.eq(data[3:], first * (n - 1)), "the others are separate")


@case("P05", [{"n": n} for n in (1, 2, 3)], bounds="every value")
def repeated_chains(sx, n):
    """Repeating a chain repeats all of its members."""
    head = make(["uint8"], ByteOrder.NETWORK, [sx.int("h", 0, 255)])
    base = make(["int16"], ByteOrder.NETWORK, [draw(sx, "int16", "b")])
    chunk = sx.bytes("chunk", 2)
    base.add_to_end(FixedChunk(chunk))
    one = bytes(base) + chunk
    head.add_to_end(base, array_length=n)
    sx.check(head.length() == 1 + 4 * n, "length")
    with BytesIO() as stream:
        sx.check(head.to_stream(stream) == 1 + 4 * n, "written")
        sx.check(sx.eq(stream.getvalue(), bytes(head) + one * n), "all of it, each time")


@case("P05", bounds="every value; primitives added past a raw chunk")
def mixed_chain(sx):
    """Primitives added after raw bytes come after them."""
    head = make(["uint8"], ByteOrder.LITTLE_ENDIAN, [sx.int("h", 0, 255)])
    chunk = sx.bytes("chunk", 3)
    head.add_to_end(FixedChunk(chunk))
    val = draw(sx, "uint16", "v")
    head.add(create("uint16", value=val))
    with BytesIO() as stream:
        sx.check(head.to_stream(stream) == 6, "written")
        data = stream.getvalue()
    want = make(["uint8"], ByteOrder.LITTLE_ENDIAN, [data[0]])
    sx.check(sx.eq(data[:1], bytes(want)), "head")
    sx.check(sx.eq(data[1:4], chunk), "chunk")
    sx.check(sx.eq(data[4:], create("uint16", value=val).binary(
        byte_order=ByteOrder.LITTLE_ENDIAN)), "appended, in the array's order")


@case("P05", [{"kinds": m} for m in MIXES[:3]],
      bounds="every value and timestamp")
def stamped(sx, kinds):
    """Decoded values carry the time they were given."""
    values = draws(sx, kinds)
    data = bytes(make(kinds, ByteOrder.NETWORK, values))
    stamp = sx.int("stamp", 0, 1 << 62)
    how = sx.pick("how", ["update", "stream"])
    array = make(kinds, ByteOrder.NETWORK)
    if how == "update":
        array.update(data, timestamp_ns=stamp)
    else:
        with BytesIO(data) as stream:
            array.from_stream(stream, timestamp_ns=stamp)
    for i in range(len(kinds)):
        sx.check(array[i].last_updated_ns == stamp, "stamp")
