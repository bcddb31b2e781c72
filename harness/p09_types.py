"""P09: the type system."""

from io import BytesIO

from runtimepy.codec.system import TypeSystem
from runtimepy.primitives.types import PrimitiveTypes
from sx.registry import case

SIZE = {"uint8": 1, "int16": 2, "float": 4, "uint64": 8, "bool": 1}
KINDS = list(SIZE)
INTS = {"uint8": (0, 255), "int16": (-32768, 32767), "uint64": (0, 2 ** 64 - 1)}


def refused(sx, fn, why):
    try:
        fn()
    except (AssertionError, KeyError):
        return
    sx.fail(why)


@case("P09", bounds="every built-in type")
def builtin(sx):
    """Built-in types have their size under every system."""
    root = sx.pick("root", [(), ("a",), ("a", "b")])
    system = TypeSystem(*root)
    for name, kind in PrimitiveTypes.items():
        sx.check(system.size(name) == kind.size, "size")
    refused(sx, lambda: system.size("nope"), "an unknown type has a size")


@case("P09", [{"count": 3}], thorough=[{"count": 3}],
      bounds="every type of up to 3 members, each any of five built-in types, an "
      "enumeration stored in two bytes, or a nested type of three bytes, single "
      "or repeated up to 3 times", budget=100, max_paths=20000)
def sizes(sx, count):
    """A type is as large as its members, in all."""
    system = TypeSystem("ns")
    system.enum("Mode", {"on": 1, "off": 2}, primitive="uint16")
    system.register("Inner")
    system.add("Inner", "first", "uint8")
    system.add("Inner", "second", "int16")
    outer = system.register("Outer")
    sx.check(system.size("Outer") == 0, "empty")
    total = 0
    known = dict(SIZE, Mode=2, Inner=3)
    for i in range(count):
        kind = sx.pick("kind", ["uint8", "uint64", "Mode", "Inner"])
        n = sx.pick("n", [None, 1, 3])
        system.add("Outer", "m%d" % i, kind, array_length=n)
        total += known[kind] * (1 if n is None else n)
        sx.check(system.size("Outer") == total and outer.size == total, "size")
    data = b"".join(bytes(part) for part in links(outer.array))
    sx.check(len(data) == total, "encoded size")
    sx.check(system.size("Inner") == 3 and system.size("Mode") == 2, "members keep theirs")
    refused(sx, lambda: system.add("Outer", "m0", "uint8"), "a member name was reused")
    sx.check(system.size("Outer") == total, "refusal changes nothing")
    system.add("Inner", "third", "uint64")
    sx.check(system.size("Inner") == 11 and system.size("Outer") == total,
             "a type that is already a member is not changed by later additions")


def links(array):
    while array is not None:
        yield array
        array = array.chain


@case("P09", [{"n": n} for n in (None, 2)],
      bounds="every value of the members of two types, one nested twice in the "
      "other")
def values(sx, n):
    """Members are separate storage, encoded in the order they were added."""
    system = TypeSystem()
    system.enum("Mode", {"on": 1, "off": 200})
    system.register("Inner")
    system.add("Inner", "a", "uint8")
    system.add("Inner", "b", "int16")
    outer = system.register("Outer")
    system.add("Outer", "head", "uint64")
    system.add("Outer", "one", "Inner", array_length=n)
    system.add("Outer", "mode", "Mode")
    system.add("Outer", "two", "Inner")
    system.add("Outer", "tail", "int16")
    inner = system.get_protocol("Inner")
    sx.check(system.get_protocol("Outer") is outer, "found by name")
    inner["a"], inner["b"] = 0x55, 0x6666
    v = {k: sx.int(k, *INTS[t]) for k, t in
         [("head", "uint64"), ("tail", "int16")]}
    for k in v:
        outer[k] = v[k]
    outer["mode"] = "off"
    body = sx.bytes("body", 3 * (n or 1))
    last = sx.bytes("last", 3)
    data = v["head"].to_bytes(8, "big") + body + b"\xc8" + last \
        + v["tail"].to_bytes(2, "big", signed=True)
    with BytesIO(data) as stream:
        sx.check(outer.array.from_stream(stream) is not None, "read")
        sx.check(stream.tell() == len(data) == outer.size == system.size("Outer"),
                 "all of it")
    for k in v:
        sx.check(outer[k] == v[k], "member value")
    sx.check(outer["mode"] == "off", "enumeration member")
    sx.check(sx.eq(b"".join(bytes(x) for x in links(outer.array)), data), "encoding")
    sx.check(inner["a"] == 0x55 and inner["b"] == 0x6666, "the nested type's own values")


NAMES = ["T", "T2"]
SPACES = [(), ("x",), ("x", "y")]


@case("P09", [{"root": r, "steps": 2} for r in ((), ("r",))],
      thorough=[{"root": r, "steps": 3} for r in ((), ("r",))],
      bounds="every sequence of 2 (thorough 3) registrations of two names in three "
      "namespaces as a type or an enumeration, repeats included", budget=100,
      max_paths=50000)
def namespaces(sx, root, steps):
    """A name belongs to its namespace, once; repeats are refused."""
    system = TypeSystem(*root)
    held = {}
    for i in range(steps):
        name, space = sx.pick("name", NAMES), sx.pick("space", SPACES)
        kind = sx.pick("kind", ["type", "enum"])
        key = (space, name)
        make = (lambda: system.register(name, *space)) if kind == "type" else \
            (lambda: system.enum(name, {"v": i}, *space, primitive="uint16"))
        if key in held:
            refused(sx, make, "a name was registered twice")
        else:
            made = make()
            held[key] = (kind, made, i)
        for space in SPACES:
            for name in NAMES:
                found = held.get((space, name))
                if found is None and not root:
                    # like the built-in types, these are found from anywhere
                    found = held.get(((), name))
                    if found and found[0] == "type":
                        found = None
                if found is None:
                    refused(sx, lambda: system.size(name, *space),
                            "a name was found that is not registered there")
                    refused(sx, lambda: system.get_protocol(name, *space),
                            "a type was found that is not registered there")
                elif found[0] == "type":
                    sx.check(system.get_protocol(name, *space) is found[1], "type")
                    sx.check(system.get_protocol(name, *space, exact=False) is found[1],
                             "the exact name first")
                    sx.check(system.size(name, *space) == 0, "size")
                else:
                    sx.check(system.size(name, *space) == 2
                             and system.get_enum(name, *space).get_int("v") == found[2],
                             "enumeration")
                    sx.check(system.get_enum(name, *space, exact=False).get_int("v")
                             == found[2], "the exact name first")
