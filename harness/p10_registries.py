"""P10: registries, two-way mappings and enumerations."""

from runtimepy.enum import RuntimeEnum
from runtimepy.enum.registry import EnumRegistry, RuntimeIntEnum
from runtimepy.registry.bool import BooleanRegistry
from runtimepy.registry.name import NameRegistry
from sx.registry import case

NAMES = ["a", "b.c", "d-e_f"]
BAD = ["", "has space", "bang!"]


def consistent(sx, reg, model, order):
    """The mapping is the model, both ways, whatever it is asked for."""
    sx.check(list(reg.names) == order and reg.registered_order == order, "names")
    sx.check(dict(reg.asdict()) == model, "exported names")
    for name in NAMES + BAD:
        sx.check(reg.identifier(name) == model.get(name), "name to identifier")
        sx.check(reg.name(name) == (name if name in model else None), "own name")
    for key in range(-1, 6):
        back = [n for n, i in model.items() if i == key]
        sx.check(reg.name(key) == (back[0] if back else None), "identifier to name")
        sx.check(reg.identifier(key) == (key if back else None), "own identifier")


STARTS = [{}, {"a": 2}, {"b.c": 3, "d-e_f": 1}]


@case("P10", [{"steps": 2, "start": s, "top": 3} for s in range(3)]
      + [{"steps": 3, "start": 0, "top": 2}],
      thorough=[{"steps": 3, "start": s, "top": 3} for s in range(3)],
      bounds="every sequence of 2 or 3 registrations of three names and "
      "one malformed name, with identifiers 1 to 3 or none, starting empty or "
      "from a loaded mapping", budget=200, max_paths=100000)
def names(sx, steps, start, top):
    """Names and identifiers stay paired for good, each one only once."""
    start = STARTS[start]
    reg = NameRegistry(reverse=dict(start)) if sx.size("how", 0, 1) else \
        NameRegistry(mapping={i: n for n, i in start.items()})
    model, order = dict(start), list(start)
    for _ in range(steps):
        name = sx.pick("name", NAMES[3 - top:] + BAD[1:2])
        want = sx.pick("id", [None, 1, 2, 3][:top + 1])
        taken = name in model
        if taken and want is not None and want != model[name]:
            try:
                reg.register_name(name, identifier=want)
                sx.fail("a name was given a second identifier")
            except AssertionError:
                pass
        else:
            got = reg.register_name(name, identifier=want)
            if taken:
                sx.check(got == model[name], "same identifier again")
            elif name in BAD or want in model.values():
                sx.check(got is None, "refused")
            else:
                sx.check(got is not None and got not in model.values(), "new identifier")
                if want is not None:
                    sx.check(got == want, "the requested identifier")
                model[name] = got
                order.append(name)
        consistent(sx, reg, model, order)


@case("P10", bounds="three names with any identifiers up to 5, registered or "
      "loaded, then three automatic ones", budget=60)
def automatic(sx):
    """Automatic identifiers are always found, and always unused ones."""
    ids = [sx.size("id%d" % i, 1, 5) for i in range(3)]
    sx.assume(len(set(ids)) == 3)
    given = {n: i for n, i in zip(NAMES, ids)}
    how = sx.size("how", 0, 2)
    if how == 2:
        reg = NameRegistry()
        sx.check(all(reg.register_name(n, identifier=i) == i
                     for n, i in given.items()), "registered")
    else:
        reg = NameRegistry(reverse=given) if how else \
            NameRegistry(mapping={i: n for n, i in given.items()})
    for name in ("x", "y", "z"):
        got = reg.register_name(name)
        sx.check(got is not None and got not in given.values(), "an unused one")
        given[name] = got
    sx.check({n: reg.identifier(n) for n in given} == given, "by name")
    sx.check(all(reg.name(i) == n for n, i in given.items()), "by identifier")


@case("P10", [{"steps": 3}], bounds="every sequence of 3 registrations of three "
      "names and one malformed name with either value")
def booleans(sx, steps):
    reg = BooleanRegistry()
    model, order = {}, []
    for _ in range(steps):
        name = sx.pick("name", NAMES + BAD[1:2])
        value = sx.pick("value", [False, True])
        got = reg.register(name, value)
        fresh = name not in BAD and name not in model and value not in model.values()
        sx.check(got is fresh, "registered exactly when both are free")
        if fresh:
            model[name] = value
            order.append(name)
        sx.check(reg.registered_order == order, "order")
        for n in NAMES:
            sx.check(reg.identifier(n) is model.get(n), "value of name")
        for v in (False, True):
            back = [n for n in model if model[n] is v]
            sx.check(reg.name(v) == (back[0] if back else None), "name of value")


@case("P10", [{"n": n} for n in (0, 1, 2)], thorough=[{"n": n} for n in range(4)],
      bounds="every name of up to 2 (thorough 3) characters below U+0250",
      budget=120, query_ms=20000)
def well_formed(sx, n):
    """Only well-formed names get in, and then unchanged."""
    name = sx.str("name", n, hi=0x24F)
    ok = n > 0
    for ch in name:
        code = ord(ch)
        word = sx.any(sx.all(code >= 48, code <= 57), sx.all(code >= 65, code <= 90),
                      sx.all(code >= 97, code <= 122), code == 95, code == 0xAA,
                      code == 0xB2, code == 0xB3, code == 0xB5, code == 0xB9,
                      code == 0xBA, sx.all(code >= 0xBC, code <= 0xBE),
                      sx.all(code >= 0xC0, code != 0xD7, code != 0xF7))
        ok = sx.all(ok, sx.any(word, code == 58, code == 46, code == 45, code == 47))
    reg = NameRegistry()
    sx.check(sx.iff(reg.validate_name(name), ok), "well-formed names are accepted")
    if n and not ok:
        sx.check(reg.register_name(name) is None and not list(reg.names), "refused")


@case("P10", bounds="three items, one of any value from -3 to 3; every value "
      "looked up", max_paths=100000, query_ms=20000)
def integers(sx):
    """An enumeration answers by name and by value, and refuses the rest."""
    vals = [sx.concrete(sx.int("v0", -3, 3)), 200, 65535]
    items = dict(zip(NAMES, vals))
    enum = RuntimeEnum.create({"id": 4, "type": "int", "primitive": "uint16",
                               "items": items})
    sx.check(enum.is_integer and not enum.is_boolean, "kind")
    for name, val in zip(NAMES, vals):
        sx.check(enum.get_int(name) == val and enum.get_int(val) == val
                 and enum.as_int(name) == val and enum.as_int(str(val)) == val,
                 "value")
        sx.check(enum.get_str(val) == name and enum.get_str(name) == name, "name")
    probe = sx.int("probe", -70000, 70000)
    known = sx.any(*[probe == v for v in vals])
    text = enum.as_str(probe)
    sx.check(sx.iff(text is not None, known), "name of a value")
    if text is not None:
        sx.check(enum.get_int(text) == probe and enum.as_int(probe) == probe, "pair")
    else:
        sx.check(enum.as_int(probe) is None, "no value")
        for bad in (lambda: enum.get_str(probe), lambda: enum.get_int(probe)):
            try:
                bad()
                sx.fail("an unknown value was resolved")
            except KeyError:
                pass
    for bad in ("nope", "", "A"):
        try:
            enum.get_int(bad)
            sx.fail("an unknown name was resolved")
        except KeyError:
            pass
        sx.check(enum.as_int(bad) is None and enum.as_str(bad) is None, "unknown")
    again = RuntimeEnum.create(enum.asdict())
    sx.check(again.asdict() == enum.asdict() and again == enum
             and dict(again.asdict()["items"]) == dict(zip(NAMES, vals))
             and again.primitive == "uint16", "export and import")


@case("P10", bounds="both ways round; every word of up to 5 letters of the "
      "accepted and other words")
def bool_enum(sx):
    """A boolean enumeration also takes true and false words."""
    flip = sx.size("flip", 0, 1)
    items = {"up": True, "down": False} if not flip else {"up": False, "down": True}
    enum = RuntimeEnum.create({"id": 1, "type": "bool", "primitive": "uint8",
                               "items": dict(items)})
    sx.check(enum.is_boolean and not enum.is_integer, "kind")
    for name, val in items.items():
        sx.check(enum.get_bool(name) is val and enum.get_int(name) == int(val)
                 and enum.get_str(val) == name and enum.get_bool(val) is val, "pair")
    word, val = sx.pick("word", [("true", True), ("True", True), ("FALSE", False),
                                 ("false", False), ("maybe", None), ("", None),
                                 ("Up", None)])
    sx.check(enum.as_bool(word) is val, "word")
    if val is None:
        for bad in (enum.get_bool, enum.get_str, enum.get_int):
            try:
                bad(word)
                sx.fail("an unknown word was resolved")
            except KeyError:
                pass
    else:
        sx.check(enum.get_bool(word) is val and enum.get_int(word) == int(val), "word")
    again = RuntimeEnum.create(enum.asdict())
    sx.check(again.asdict() == enum.asdict() and again.get_bool("up") is items["up"],
             "export and import")


@case("P10", [{"steps": 3}], bounds="every sequence of 3 registrations of three "
      "enumeration names with identifiers 1 to 3 or none", budget=100,
      max_paths=50000)
def enums(sx, steps):
    """A registry holds each item under one name and one identifier."""
    reg = EnumRegistry()
    held = {}
    for i in range(steps):
        name = sx.pick("name", NAMES[:2] + BAD[1:2])
        want = sx.pick("id", [None, 1, 2])
        data = {"type": "int", "primitive": "uint8", "items": {"x": i}}
        if want is not None:
            data["id"] = want
        before = {n: e.asdict() for n, e in reg.items.items()}
        clash = name in held and want is not None and want != held[name].id
        try:
            item = reg.register_dict(name, data)
        except AssertionError:
            item = None
            sx.check(clash, "raised")
        ids = [e.id for e in held.values()]
        if clash or name in held or name in BAD or (want in ids):
            sx.check(item is None, "a taken name or identifier is refused")
            sx.check({n: e.asdict() for n, e in reg.items.items()} == before,
                     "refusal changes nothing")
        else:
            sx.check(item is not None and item.id not in ids, "registered")
            held[name] = item
            if want is not None:
                sx.check(item.id == want, "identifier")
        for n, e in held.items():
            sx.check(reg[n] is e and reg[e.id] is e and reg.get(n) is e, "found")
        sx.check(list(reg.items) == list(held), "nothing else is held")
        for n in NAMES + BAD:
            if n not in held:
                sx.check(reg.get(n) is None, "absent")
    again = EnumRegistry.create(reg.asdict())
    sx.check(again.asdict() == reg.asdict(), "export and import")
    for n, e in held.items():
        sx.check(again[n].get_int("x") == e.get_int("x") and again[e.id] == e, "item")


@case("P10", bounds="three pairs, each given either way round; one identifier "
      "from -3 to 3")
def loaded(sx):
    """Pairs may be loaded from either side."""
    ids = [sx.concrete(sx.int("id", -3, 3)), 7, 9]
    data = {}
    for name, i in zip(NAMES, ids):
        if sx.size("by", 0, 1):
            data[name] = i
        else:
            data[i] = name
    reg = NameRegistry.int_from_dict(data)
    for name, i in zip(NAMES, ids):
        sx.check(reg.identifier(name) == i and reg.name(i) == name, "pair")
    new = reg.register_name("new")
    sx.check(new not in ids and reg.name(new) == "new", "a new identifier")
    up = sx.pick("up", [False, True])
    flags = {"up": up, (not up): "down"} if sx.size("mix", 0, 1) else \
        {up: "up", "down": not up}
    bools = BooleanRegistry.bool_from_dict(flags)
    sx.check(bools.identifier("up") is up and bools.name(not up) == "down"
             and bools.name(up) == "up" and bools.identifier("down") is (not up),
             "boolean pairs")


@case("P10", bounds="every value pair of two names or two values clashing")
def clashes(sx):
    """Loading pairs that clash is refused."""
    a, b = sx.concrete(sx.int("a", 0, 2)), sx.concrete(sx.int("b", 0, 2))
    try:
        NameRegistry(mapping={a: "x"}, reverse={"x": b})
        sx.check(a == b, "one name, two identifiers")
    except AssertionError:
        sx.check(a != b, "refused a repeated pair")
    try:
        NameRegistry(mapping={a: "x"}, reverse={"y": b})
        sx.check(a != b, "one identifier, two names")
    except AssertionError:
        sx.check(a == b, "refused separate pairs")


@case("P10", bounds="every pair of three names and identifiers 1 to 4 loaded, either "
      "way, into each of three registries, then an automatic one", budget=60)
def reloads(sx):
    """A loaded pair is added, or refused without changing anything."""
    start = sx.pick("start", STARTS)
    reg = NameRegistry(reverse=dict(start))
    model, order = dict(start), list(start)
    for i in range(2):
        name, key = sx.pick("name%d" % i, NAMES), sx.size("key%d" % i, 1, 4)
        fits = model.get(name, key) == key and \
            all(n == name for n, k in model.items() if k == key)
        try:
            if sx.size("way%d" % i, 0, 1):
                reg.load_name_to_key({name: key})
            else:
                reg.load_key_to_name({key: name})
            sx.check(fits, "a pair that clashes was loaded")
            if name not in model:
                order.append(name)
            model[name] = key
        except AssertionError:
            sx.check(not fits, "a pair that fits was refused")
        consistent(sx, reg, model, order)
    new = reg.register_name("new")
    sx.check(new is not None and new not in model.values(), "an unused identifier")
    model["new"] = new
    consistent(sx, reg, model, order + ["new"])


class Level(RuntimeIntEnum):
    LOW = 1
    MID = 7
    TOP = 200


class Wide(Level.__base__):
    ONLY = 40000

    @classmethod
    def primitive(cls):
        return "uint16"

    @classmethod
    def enum_name(cls):
        return "wide.enum"


@case("P10", bounds="two enumeration classes, registered by their name or another; any "
      "value up to 65535", query_ms=20000)
def classes(sx):
    """An enumeration class is registered with its items."""
    kind = sx.pick("kind", [Level, Wide])
    reg = EnumRegistry()
    other = reg.enum("other", "int", items={"x": 3})
    name = sx.pick("name", [None, "named"])
    enum = kind.register_enum(reg, name) if name else kind.register_enum(reg)
    name = name or ("Level" if kind is Level else "wide.enum")
    sx.check(reg[name] is enum and reg[enum.id] is enum and enum.id != other.id, "found")
    sx.check(enum.primitive == ("uint8" if kind is Level else "uint16"), "primitive")
    items = {x.name.lower(): x.value for x in kind}
    sx.check(dict(enum.asdict()["items"]) == items, "items")
    value = sx.int("value", 0, 65535)
    text = enum.as_str(value)
    sx.check(sx.iff(text is not None, sx.any(*[value == v for v in items.values()])),
             "its values only")
    if text is not None:
        sx.check(items[text] == value, "the name of a value")
    for item in kind:
        sx.check(kind.normalize(item) is item and kind.normalize(item.value) is item
                 and kind.normalize(item.name) is item
                 and kind.normalize(item.name.lower()) is item, "normalized")
    for bad in (0, "nope"):
        try:
            kind.normalize(bad)
            sx.fail("normalized something else")
        except (KeyError, ValueError):
            pass
    again = kind.runtime_enum(9)
    sx.check(again.id == 9 and dict(again.asdict()["items"]) == items, "on its own")


@case("P10", [{"steps": 3}], bounds="every sequence of three items of three names and a "
      "malformed one added to an integer or boolean enumeration")
def grown(sx, steps):
    """Items added to an enumeration get values of their own."""
    flags = sx.size("flags", 0, 1)
    reg = EnumRegistry()
    enum = reg.enum("e", "bool" if flags else "int",
                    {} if flags else {"a": 2})
    model = {} if flags else {"a": 2}
    for _ in range(steps):
        name = sx.pick("name", NAMES + BAD[1:2])
        if flags:
            val = sx.pick("val", [True, False])
            got = enum.register_bool(name, val)
            fresh = name not in BAD and name not in model and val not in model.values()
            sx.check(got is fresh, "added when free")
            if fresh:
                model[name] = val
        else:
            got = enum.register_int(name)
            if name in BAD:
                sx.check(got is None, "refused")
            elif name in model:
                sx.check(got == model[name], "as it was")
            else:
                sx.check(got is not None and got not in model.values(), "its own")
                model[name] = got
        sx.check(dict(enum.asdict()["items"]) == model, "items")
        for n, v in model.items():
            sx.check((enum.get_bool(n) if flags else enum.get_int(n)) == v
                     and enum.get_str(v) == n, "both ways")
    again = RuntimeEnum.create(enum.asdict())
    sx.check(again == enum and again.asdict() == enum.asdict(), "export and import")
