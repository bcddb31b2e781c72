"""P04: bit fields partition their storage."""

from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives import create
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives.field.manager import BitFieldsManager
from runtimepy.registry.name import NameRegistry
from sx.registry import case

ASSUMPTIONS = ["field names are well-formed"]

BITS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def refused(fn, *args, **kwargs):
    """Whether a request is refused (and what it raises is an error)."""
    try:
        fn(*args, **kwargs)
    except (AssertionError, KeyError, ValueError):
        return True
    return False


@case("P04", [{"kind": "uint8"}],
      thorough=[{"kind": "uint16"}, {"kind": "uint8"}],
      bounds="every index and width (8, thorough 16 bits), every starting "
      "storage value and every assigned value of 2*bits bits, negatives "
      "included", budget=100)
def one_field(sx, kind):
    """A field reads and writes exactly its bits."""
    bits = BITS[kind]
    index = sx.size("index", 0, bits + 1)
    width = sx.size("width", 1, bits + 1)
    raw = create(kind)
    start = sx.int("start", 0, (1 << bits) - 1)
    raw.value = start
    fits = index + width <= bits
    if not fits:
        sx.check(refused(BitField, "a", raw, index, width), "does not fit")
        sx.check(raw.value == start, "untouched")
        return
    field = BitField("a", raw, index, width)
    top = (1 << width) - 1
    sx.check(field() == (start >> index) & top, "reads its bits")
    value = sx.int("value", -(1 << (2 * bits)), 1 << (2 * bits))
    got = field(value)
    sx.check(got == value & top, "returns the value it holds")
    sx.check(field() == value & top, "holds the masked value")
    mask = top << index
    sx.check(raw.value & ~mask == start & ~mask, "other bits untouched")
    inv = field.invert()
    sx.check(inv == (~value) & top, "invert returns the new value")
    sx.check(field() == inv, "inverted")
    sx.check(raw.value & ~mask == start & ~mask, "other bits still untouched")
    where = field.where_str()
    sx.check(where == "-" * index + "^" * width + "-" * (bits - index - width),
             "where")


@case("P04", [{"kind": k} for k in BITS],
      bounds="every position of a flag (first, second, middle, last) and "
      "every starting value")
def one_flag(sx, kind):
    bits = BITS[kind]
    index = sx.pick("index", [0, 1, bits // 2, bits - 1])
    raw = create(kind)
    start = sx.int("start", 0, (1 << bits) - 1)
    raw.value = start
    flag = BitFlag("f", raw, index)
    rest = ~(1 << index)
    sx.check(flag.get() == (((start >> index) & 1) == 1), "reads")
    op = sx.pick("op", ["set", "clear", "invert", "val"])
    want = True
    if op == "set":
        flag.set()
    elif op == "clear":
        flag.clear()
        want = False
    elif op == "invert":
        want = not flag.get()
        flag.invert()
    else:
        want = sx.bool("val")
        flag.set(want)
    sx.check(sx.iff(flag.get(), want), op)
    sx.check(flag() == sx.ite(want, 1, 0), "as a number")
    sx.check(raw.value & rest == start & rest, "other bits untouched")


def build(sx, bits, count, explicit):
    """Claim count regions; the model is the set of bits taken."""
    fields = BitFields.new("uint%d" % bits)
    taken, model, cursor = set(), [], 0
    for i in range(count):
        what = sx.pick("what%d" % i, ["flag", "field", "pad"])
        width = 1 if what == "flag" else sx.size("width%d" % i, 2 if what == "field"
                                                 else 1, 4)
        index = None
        if explicit and sx.bool("explicit%d" % i):
            index = sx.size("index%d" % i, 0, bits)
        at = cursor if index is None else index
        want = set(range(at, at + width))
        ok = not (want & taken) and at + width <= bits
        kwargs = {} if index is None else {"index": index}

        def claim():
            if what == "flag":
                return fields.flag("n%d" % i, **kwargs).index
            if what == "field":
                return fields.field("n%d" % i, width, **kwargs).index
            return fields.pad(width=width, **kwargs)

        if not ok:
            sx.check(refused(claim), "overlapping or out-of-range claim refused")
            sx.check("n%d" % i not in fields.fields, "not added")
            continue
        sx.check(claim() == at, "placed where asked, or at the cursor")
        taken |= want
        if at >= cursor:
            cursor = at + width
        model.append((what, "n%d" % i, at, width))
    return fields, model


@case("P04", [{"count": 3, "explicit": False}, {"count": 2, "explicit": True}],
      thorough=[{"count": 3, "explicit": False}, {"count": 3, "explicit": True}],
      bounds="8-bit storage; up to 3 claims (2, thorough 3, with explicit "
      "positions) of every width up to 4", budget=120, max_paths=60000)
def disjoint(sx, count, explicit):
    """Claims never overlap, and writing one field changes no other."""
    fields, model = build(sx, 8, count, explicit)
    named = [m for m in model if m[0] != "pad"]
    start = sx.int("start", 0, 255)
    fields.raw.value = start
    if named:
        which = sx.size("which", 0, len(named) - 1)
        value = sx.int("value", 0, 255)
        fields[named[which][1]](value)
        for i, (_, name, at, width) in enumerate(named):
            top = (1 << width) - 1
            if i == which:
                sx.check(fields[name]() == value & top, "written")
            else:
                sx.check(fields[name]() == (start >> at) & top, "not disturbed")
            sx.check(fields[at] is fields[name], "found by index too")
    fields.finalize()
    sx.check(refused(fields.field, "late", 2), "nothing after finalize")
    sx.check(refused(fields.flag, "late"), "no flag after finalize")
    sx.check(refused(fields.pad), "no padding after finalize")


@case("P04", bounds="two explicit placements anywhere in 8 bits, of a flag and a "
      "2-bit field in either order, then two automatic ones", budget=60)
def resumed(sx):
    """Automatic placement goes on above the highest bits taken."""
    fields = BitFields.new("uint8")
    taken, cursor = set(), 0
    widths = [2, 1] if sx.size("order", 0, 1) else [1, 2]
    for i, width in enumerate(widths + [2, 1]):
        index = sx.size("index%d" % i, 0, 8 - width) if i < 2 else None
        at = cursor if index is None else index
        want = set(range(at, at + width))
        name = "n%d" % i

        def claim():
            return (fields.flag(name, index=index) if width == 1 else
                    fields.field(name, width, index=index)).index

        if want & taken or at + width > 8:
            sx.check(refused(claim), "no room")
            continue
        sx.check(claim() == at, "placed where asked, or above the highest")
        taken |= want
        cursor = max(cursor, at + width)


@case("P04", bounds="a flag and a field of the same name, either order")
def names_unique(sx):
    fields = BitFields.new("uint16")
    make = [lambda: fields.flag("same"), lambda: fields.field("same", 3)]
    first = sx.size("first", 0, 1)
    second = sx.size("second", 0, 1)
    make[first]()
    before = fields["same"]
    sx.check(refused(make[second]), "a name is used once")
    sx.check(fields["same"] is before, "the first one stays")


@case("P04", [{"finalized": f} for f in (False, True)],
      bounds="every value of a flag, a 3-bit field, a 2-bit enum field and "
      "padding in 16 bits, with and without a gap", budget=60)
def round_trip(sx, finalized):
    """Exported fields come back identical, values and metadata included."""
    fields = BitFields.new("uint16")
    desc = sx.pick("desc", [None, "words"])
    cmd = sx.concrete(sx.bool("commandable"))
    gap = sx.size("gap", 0, 2)
    fields.flag("flag", description=desc, commandable=cmd)
    fields.pad(width=3, val=sx.int("pad", 0, 7))
    fields.field("wide", 3, index=4 + gap, description=desc)
    fields.field("pick", 2, enum="en", description=desc, commandable=cmd)
    value = {"flag": sx.int("flag", 0, 1), "wide": sx.int("wide", 0, 7),
             "pick": sx.int("pick", 0, 3)}
    for name, val in value.items():
        fields[name](val)
    if finalized:
        fields.finalize()
    # descriptions and padding included, in the published schema
    again = BitFields.create(fields.asdict())
    sx.check(again.raw.value == fields.raw.value, "storage")
    sx.check(again.raw.kind == fields.raw.kind, "type")
    sx.check(list(again.names) == list(fields.names), "names, in order")
    for name in value:
        a, b = again[name], fields[name]
        sx.check((a.index, a.width, a.commandable, a.description, a.is_enum) ==
                 (b.index, b.width, b.commandable, b.description, b.is_enum),
                 "metadata of " + name)
        sx.check(a() == value[name], "value of " + name)
    sx.check(again["pick"].enum == "en", "enum")
    sx.check(sx.eq(again.asdict(), fields.asdict()), "same export")
    for at in (1, 3):
        sx.check(all(refused(f.flag, "in", index=at) for f in (again, fields)),
                 "padding isn't available")
    more = [refused(f.flag, "late") for f in (again, fields)]
    sx.check(more == [finalized] * 2, "finalized alike")
    if not finalized:
        sx.check(again["late"].index == fields["late"].index, "same cursor")
    empty = BitFields.new("uint16")
    if finalized:
        empty.finalize()
    sx.check(refused(BitFields.create(empty.asdict()).flag, "a") is finalized,
             "also when there are none")


def manager():
    names = NameRegistry()
    enums = EnumRegistry.create({"mode": {"id": 1, "type": "int", "items": {
        "off": 0, "low": 1, "high": 2}}})
    a, b = BitFields.new("uint8"), BitFields.new("uint16")
    a.flag("a.flag")
    a.field("a.mode", 2, enum="mode")
    a.field("a.num", 4)
    b.field("b.num", 11)
    b.flag("b.flag", index=15)
    return BitFieldsManager(names, enums, fields=[a, b])


WIDTHS = {"a.flag": 1, "a.mode": 2, "a.num": 4, "b.num": 11, "b.flag": 1}


@case("P04", [{"name": n} for n in WIDTHS],
      bounds="every pair of storage values and every value assigned to one "
      "field, by name, by identifier, by enum name or boolean word")
def managed(sx, name):
    """Names, identifiers, enum names and words all reach the same bits."""
    man = manager()
    man.fields[0].raw.value = sx.int("raw0", 0, 255)
    man.fields[1].raw.value = sx.int("raw1", 0, 65535)
    before = {n: man[n]() for n in WIDTHS}
    key = name if sx.bool("by_name") else man.registry.identifier(name)
    top = (1 << WIDTHS[name]) - 1
    if name == "a.mode":
        form = sx.pick("form", ["number", "word"])
    elif WIDTHS[name] == 1:
        form = sx.pick("form", ["number", "word", "bool"])
    else:
        form = "number"
    if form == "number":
        value = sx.int("value", 0, 2 * top + 1)
        man.set(key, value)
        want = value & top
    elif form == "bool":
        want = sx.bool("value")
        man.set(key, want)
        want = sx.ite(want, 1, 0)
    elif name == "a.mode":
        want = sx.size("value", 0, 2)
        man.set(key, ["off", "low", "high"][want])
    else:
        want = sx.size("value", 0, 1)
        man.set(key, ["false", "true"][want])
    sx.check(man[name]() == want, "set")
    for n in WIDTHS:
        if n != name:
            sx.check(man[n]() == before[n], "others untouched")
    got = man.get(key)
    if name == "a.mode":
        sx.check(sx.eq(got, ["off", "low", "high", 3][sx.concrete(want)]),
                 "resolved")
        sx.check(man.get(key, resolve_enum=False) == want, "unresolved")
    elif WIDTHS[name] == 1:
        sx.check(sx.iff(got, want == 1), "boolean")
    else:
        sx.check(got == want, "number")
    sx.check(man.has_field(key), "known")
    if WIDTHS[name] == 1:
        sx.check(man.get_flag(key) is man[name], "a flag")
    else:
        sx.check(refused(man.get_flag, key), "not a flag")


@case("P04", bounds="every value of the flags and fields of two storages "
      "(21 bits are sampled as 3 symbolic fields of 1, 2 and 4 bits)", budget=60)
def managed_round_trip(sx):
    man = manager()
    value = {"a.flag": sx.int("flag", 0, 1), "a.mode": sx.int("mode", 0, 3),
             "a.num": sx.int("num", 0, 15), "b.num": sx.int("bnum", 0, 2047),
             "b.flag": sx.int("bflag", 0, 1)}
    for n, v in value.items():
        man.set(n, v)
    resolve = sx.concrete(sx.bool("resolve"))
    again = BitFieldsManager.import_json(man.export_json(resolve_enum=resolve))
    for n, v in value.items():
        sx.check(again[n]() == v, "value of " + n)
        sx.check(again.registry.identifier(n) == man.registry.identifier(n),
                 "identifier of " + n)
    sx.check(sx.eq(again.values(), man.values()), "values")
    sx.check(sx.eq(again.export_json(), man.export_json()), "same export")
    # values of the export are what's loaded
    data = man.export_json(resolve_enum=resolve)
    num, flag = sx.int("num2", 0, 15), sx.bool("flag2")
    data["values"].update({"a.num": num, "b.flag": flag})
    again = BitFieldsManager.import_json(data)
    sx.check(again.get("a.num") == num, "number from the values")
    sx.check(sx.iff(again.get("b.flag"), flag), "flag from the values")
    sx.check(all(refused(f.flag, "late") for f in man.fields + again.fields),
             "what's managed is final")
    # a copy has storage of its own
    import copy
    other = copy.copy(man)
    other.set("a.num", (value["a.num"] + 1) & 15)
    sx.check(man["a.num"]() == value["a.num"], "the original is not disturbed")
