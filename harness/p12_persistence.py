"""P12: saving and loading channel environments."""

import copy
import math
import os
import shutil
import tempfile

from vcorelib.io import ARBITER

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import create
from runtimepy.primitives.field.fields import BitFields
from runtimepy.ui.controls import make_slider
from sx.registry import case

ASSUMPTIONS = ["JSON text carries numbers, strings, lists and maps unchanged",
               "NaN values are left out of what is saved"]

BOUNDS = {"uint8": (0, 255), "int16": (-32768, 32767),
          "uint32": (0, 2 ** 32 - 1), "int64": (-2 ** 63, 2 ** 63 - 1)}
NAMES = ["Abc.D-e_f", "0.1"]
ENUM_NAMES = ["ns.Mode", "a/b:c-d"]


def parts(sx):
    """An environment with one of everything, its pieces chosen freely."""
    env = ChannelEnvironment()
    name = sx.pick("name", NAMES)
    ename = sx.pick("enum", ENUM_NAMES)
    env.enum("first", "bool", items={"down": False, "up": True})
    enum = env.enum(ename, "int", items={"off": 0, "low": 1, "huge": 200})
    by = sx.pick("by", ["key", "object"])
    ref = ename if by == "key" else enum
    env.int_channel(name, "int16", commandable=sx.concrete(sx.bool("commandable")))
    env.int_channel("e", "uint8", enum=ref)
    env.bool_channel("p", enum="first")
    fields = BitFields.new("uint16")
    fields.flag("w.Flag", commandable=True)
    fields.field("w.mode", 2, index=3, enum=ename, description="mode")
    fields.field("w.rest", 7, index=9)
    env.fields.add(fields)
    env.bool_channel("late")
    env[name] = sx.int("value", -32768, 32767)
    env["e"] = sx.int("item", 0, 255)
    env["p"] = sx.bool("p")
    env["late"] = sx.bool("late")
    fields.raw.value = sx.int("word", 0, 65535)
    return env


def describe(env):
    """Everything that can be observed of an environment."""
    chans = {n: (c.id, str(c.type), c.commandable, c.description, c.default,
                 c.controls, env.channel_enums[c].asdict()
                 if c in env.channel_enums else None,
                 env.channel_enums[c].id if c in env.channel_enums else None,
                 list(c.raw.scaling) if c.raw.scaling else None)
             for n, c in env.channels.items.items()}
    enums = {n: (e.id, e.type, e.primitive, e.asdict())
             for n, e in env.enums.items.items()}
    words = [(str(f.raw.kind), list(f.names),
              [(x.name, x.index, x.width, x.commandable, x.description,
                env.fields.enum_lookup[x.name].id
                if x.name in env.fields.enum_lookup else None)
               for x in (f.fields[n] for n in f.names)])
             for f in env.fields.fields]
    return (sorted(env.names), {n: env.channels.names.identifier(n) for n in env.names},
            chans, enums, words)


def raws(env):
    return ({n: c.raw.value for n, c in env.channels.items.items()},
            [f.raw.value for f in env.fields.fields])


def compare(sx, env, back, what, values=True):
    sx.check(describe(back) == describe(env), what + ": same description")
    a, b = raws(env), raws(back)
    for name, value in a[0].items():
        if isinstance(value, float) and sx.concrete(math.isnan(value)):
            continue
        if values:
            sx.check(sx.eq(b[0][name], value), what + ": same channel values")
    if values:
        sx.check(len(a[1]) == len(b[1]), what + ": same words")
        for x, y in zip(a[1], b[1]):
            sx.check(x == y, what + ": same bit-field values")
    sx.check(back.finalized, what + ": loaded environments are final")


def masked(env):
    """Only what fields cover is saved."""
    for word in env.fields.fields:
        mask = 0
        for field in word.fields.values():
            mask |= ((1 << field.width) - 1) << field.index
        word.raw.value = word.raw.value & mask


@case("P12", budget=60, bounds="every value, 2 channel names, 2 enum names, by name "
      "or object, enums saved by name or by value")
def in_memory(sx):
    env = parts(sx)
    masked(env)
    resolve = sx.concrete(sx.bool("resolve"))
    data = env.export_json(resolve_enum=resolve)
    sx.check(resolve or not any(isinstance(x, str) for x in data["values"].values()),
             "saved by value")
    back = ChannelEnvironment.load_json(copy.deepcopy(data))
    compare(sx, env, back, "loaded")
    sx.check(env.finalized, "an exported environment is final")
    again = back.export_json()
    third = ChannelEnvironment.load_json(again)
    compare(sx, back, third, "loaded again")


class Store:
    """Keeps what would be written to JSON files, when values are symbolic."""

    def __init__(self, sx):
        self.data = {}
        if sx.symbolic:
            self.old = ARBITER.encode, ARBITER.decode
            ARBITER.encode, ARBITER.decode = self.encode, self.decode

    def encode(self, path, data, *_, **__):
        open(path, "w").close()
        self.data[str(path)] = copy.deepcopy(data)

    def decode(self, path, *_, **__):
        class Result:
            success = True
        Result.data = copy.deepcopy(self.data[str(path)])
        return Result

    def close(self):
        if hasattr(self, "old"):
            del ARBITER.encode
            del ARBITER.decode


@case("P12", budget=60, bounds="every value; as for one document, but over a directory "
      "of files")
def in_files(sx):
    env = parts(sx)
    masked(env)
    resolve = sx.concrete(sx.bool("resolve"))
    path = tempfile.mkdtemp(prefix="p12-")
    store = Store(sx)
    try:
        env.export_directory(path, resolve_enum=resolve)
        saved = ARBITER.decode(os.path.join(path, "values.json")).data
        sx.check(resolve or not any(isinstance(x, str) for x in saved.values()),
                 "saved by value")
        final = sx.size("final", 0, 1)
        back = ChannelEnvironment.load_directory(path) if final else \
            ChannelEnvironment.load_directory(path, finalize=False)
        if not final:
            sx.check(not back.finalized, "not final when asked")
            extra = back.int_channel("extra.channel")[0].id
            sx.check(extra not in {c.id for c in env.channels.items.values()},
                     "an identifier of its own")
            twin = ChannelEnvironment.load_directory(path, finalize=False)
            sx.check(twin.values() == env.values(), "values before it is final")
            twin.finalize()
            back = twin
    finally:
        store.close()
        shutil.rmtree(path)
    compare(sx, env, back, "loaded")


@case("P12", [{"kind": k} for k in ("uint8", "int16")], budget=60,
      bounds="every value, 3 linear and a quadratic scaling")
def scaled(sx, kind):
    lo, hi = BOUNDS[kind]
    env = ChannelEnvironment()
    scaling = sx.pick("scaling", [[0.0, 2.0], [5.0, -4.0], [1.0, 1.0],
                                  [0.0, 1.0, 2.0]])
    env.int_channel("c", kind, scaling=scaling)
    env.int_channel("plain", kind)
    raw = sx.int("raw", lo, hi)
    env.set("c", raw, scaled=False)
    env.set("plain", raw, scaled=False)
    data = copy.deepcopy(env.export_json())
    if len(scaling) > 2:
        # values in such units can't be assigned (see "quadratic")
        data.pop("values")
    back = ChannelEnvironment.load_json(data)
    if len(scaling) <= 2:
        compare(sx, env, back, "loaded")
        sx.check(back.value("c") == env.value("c"), "same scaled value")
    new = sx.int("new", lo, hi)
    back.set("c", new, scaled=False)
    sx.check(back.value("c") == scaling[0] + scaling[1] * new
             + (scaling + [0.0])[2] * new * new, "still scaled")


@case("P12", [{"kind": k} for k in ("float", "double")], budget=60,
      bounds="every value and every default")
def floats(sx, kind):
    env = ChannelEnvironment()
    prim = type(create("float"))
    env.float_channel("c", kind)
    env.float_channel("d", kind, default=1.25)
    env["c"] = prim.decode(sx.bytes("value", 4))
    env["d"] = prim.decode(sx.bytes("other", 4))
    back = ChannelEnvironment.load_json(copy.deepcopy(env.export_json()))
    compare(sx, env, back, "loaded")
    if math.isnan(env.value("c")):
        sx.check(back.value("c") == 0, "a value that isn't saved starts over")
    if math.isnan(env.value("d")):
        sx.check(back.value("d") == 1.25, "a value that isn't saved is the default")


@case("P12", [{"kind": k} for k in BOUNDS], budget=60,
      bounds="every value, default, description and set of controls")
def details(sx, kind):
    lo, hi = BOUNDS[kind]
    env = ChannelEnvironment()
    default = sx.int("default", lo, hi)
    about = sx.str("about", 3, alphabet="ab \n")
    controls = sx.pick("controls", [None, "period", make_slider(0, 10, 1, default=3),
                                    make_slider(-1.5, 10, 0.5)])
    kw = {}
    if sx.pick("has default", [True, False]):
        kw["default"] = default
    if controls is not None:
        if not kw and sx.pick("plain controls", [True, False]) and \
                isinstance(controls, dict):
            controls = {"slider": controls["slider"]}
        if isinstance(controls, str) and not kw:
            # its default isn't an integer
            sx.assume(False)
        kw["controls"] = controls
    env.int_channel("c", kind, description=about, **kw)
    if kw.get("default") is not None:
        sx.check(env.value("c") == default, "starts at its default")
    env["c"] = sx.int("value", lo, hi)
    back = ChannelEnvironment.load_json(copy.deepcopy(env.export_json()))
    compare(sx, env, back, "loaded")
    sx.check(back.num_defaults == env.num_defaults, "number of defaults")


@case("P12", budget=60, bounds="every position of a flag and a 3-bit field in a byte, "
      "every value")
def claimed_fields(sx):
    """Bit fields added one at a time, for one or two words."""
    from runtimepy.primitives.field import BitField, BitFlag
    env = ChannelEnvironment()
    prim = create("uint8")
    other = create("uint8") if sx.pick("words", [1, 2]) == 2 else prim
    at = sx.size("flag", 0, 7)
    start = sx.size("field", 0, 5)
    sx.assume(not (start <= at < start + 3) or other is not prim)
    env.add_field(BitFlag("f.flag", prim, at))
    env.add_field(BitField("f.wide", other, start, 3))
    env.finalize()
    env["f.flag"] = sx.bool("flag value")
    env["f.wide"] = sx.int("wide value", 0, 7)
    first = env.export_json()
    data = env.export_json()
    sx.check(len(env.fields.fields) == (1 if other is prim else 2),
             "exporting adds nothing")
    sx.check(first == data, "exporting twice gives the same")
    back = ChannelEnvironment.load_json(copy.deepcopy(data))
    compare(sx, env, back, "loaded")
    for name in ("f.flag", "f.wide"):
        sx.check(back.value(name) == env.value(name), "same value")


@case("P12", budget=40, bounds="every choice of identifiers for later channels")
def extended(sx):
    """A loaded environment that isn't final can be extended."""
    env = parts(sx)
    masked(env)
    back = ChannelEnvironment.load_json(copy.deepcopy(env.export_json()),
                                        finalize=False)
    sx.check(not back.finalized, "not final when asked")
    used = {env.channels.names.identifier(n) for n in env.names}
    chan, _ = back.int_channel("added", "uint8")
    sx.check(chan.id not in used, "identifiers aren't reused")
    back["added"] = sx.int("added", 0, 255)
    third = ChannelEnvironment.load_json(copy.deepcopy(back.export_json()))
    compare(sx, back, third, "loaded")


@case("P12", [], [], bounds="a known finding: replayed, not explored")
def quadratic(sx):
    """Values whose units can't be converted back are loaded too."""
    env = ChannelEnvironment()
    env.int_channel("c", "uint8", scaling=[0.0, 1.0, 2.0])
    raw = sx.int("raw", 0, 255)
    env.set("c", raw, scaled=False)
    try:
        back = ChannelEnvironment.load_json(copy.deepcopy(env.export_json()))
    except AssertionError:
        sx.fail("not loaded")
        return
    sx.check(back.value("c", scaled=False) == raw, "same value")
