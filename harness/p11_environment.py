"""P11: channel environments: assigning and reading by name and identifier."""

import math

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import create
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives import Uint8
from sx.registry import case

ASSUMPTIONS = ["field and channel names are distinct"]

MODE = {"off": 0, "low": 1, "high": 2, "max": 200}
POWER = {"down": False, "up": True}
BOUNDS = {"bool": (0, 1), "uint8": (0, 255), "int16": (-32768, 32767),
          "uint32": (0, 2 ** 32 - 1), "int64": (-2 ** 63, 2 ** 63 - 1)}


def build():
    env = ChannelEnvironment()
    env.enum("mode", "int", items=dict(MODE))
    env.enum("power", "bool", items=dict(POWER))
    env.bool_channel("a.flag")
    env.int_channel("a.u8", "uint8")
    env.int_channel("a.i16", "int16")
    env.channel("b.u32", "uint32")
    env.channel("b.i64", create("int64"))
    env.int_channel("b.mode", "uint8", enum="mode")
    env.bool_channel("c.power", enum="power")
    env.float_channel("c.single")
    env.float_channel("c.double", "double")
    env.int_channel("c.scaled", "int16", scaling=[3.0, 2.0])
    fields = BitFields.new("uint16")
    fields.flag("w.flag")
    fields.field("w.wide", 5, index=3)
    fields.field("w.mode", 2, index=1, enum="mode")
    fields.flag("w.power", index=8, enum="power")
    env.fields.add(fields)
    env.finalize()
    return env


INTS = {"a.u8": "uint8", "a.i16": "int16", "b.u32": "uint32", "b.i64": "int64"}
CHANNELS = ["a.flag", "a.u8", "a.i16", "b.u32", "b.i64", "b.mode", "c.power",
            "c.single", "c.double", "c.scaled"]
FIELDS = {"w.flag": (0, 1), "w.wide": (3, 5), "w.mode": (1, 2), "w.power": (8, 1)}


def scramble(sx, env):
    """Give every channel and field some value of its own."""
    env["a.flag"] = sx.bool("old.flag")
    for name, kind in INTS.items():
        env[name] = sx.int("old." + name, *BOUNDS[kind])
    env["b.mode"] = sx.ite(sx.bool("old.mode"), 2, 0)
    env["c.power"] = sx.bool("old.power")
    env["c.single"] = 1.5
    env["c.double"] = -0.25
    env.set("c.scaled", sx.int("old.scaled", -32768, 32767), scaled=False)
    raw = env.fields.fields[0].raw
    raw.value = sx.int("old.word", 0, 65535)
    # fields with an enum hold something listed
    raw.value = raw.value & ~0b110 | sx.ite(sx.bool("old.wmode"), 4, 0)


def snapshot(env):
    out = {n: bytes(env.channels[n].raw) for n in CHANNELS}
    out["w"] = env.fields.fields[0].raw.value
    return out


def same(sx, env, before, but, what="the rest is unchanged"):
    after = snapshot(env)
    for name, data in before.items():
        if name == but:
            continue
        if name == "w" and but in FIELDS:
            index, width = FIELDS[but]
            mask = ~(((1 << width) - 1) << index) & 0xFFFF
            sx.check(after["w"] & mask == data & mask, what)
        else:
            sx.check(after[name] == data, what)


def keys(sx, env, name):
    """The key to use, and the other one."""
    ident = env.channels.names.identifier(name)
    return (name, ident) if sx.pick("by", ["name", "id"]) == "name" else (ident, name)


def both(sx, env, name, value, what, **kw):
    ident = env.channels.names.identifier(name)
    sx.check(sx.eq(env.value(name, **kw), value), what + " by name")
    sx.check(sx.eq(env.value(ident, **kw), value), what + " by identifier")


@case("P11", [{"name": n} for n in INTS], budget=40,
      bounds="every value the channel's type holds, every earlier value of the others")
def integers(sx, name):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    value = sx.int("value", *BOUNDS[INTS[name]])
    key, _ = keys(sx, env, name)
    if sx.pick("how", ["set", "item", "raw"]) == "item":
        env[key] = value
    else:
        env.set(key, value, scaled=sx.concrete(sx.bool("scaled")))
    both(sx, env, name, value, "reads back")
    both(sx, env, name, value, "reads back raw", scaled=False)
    sx.check(env.channels[name].raw.value == value, "stored")
    same(sx, env, before, name)


@case("P11", budget=40, bounds="every boolean; every earlier value of the others")
def booleans(sx):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    value = sx.bool("value")
    key, _ = keys(sx, env, "a.flag")
    env.set(key, value)
    both(sx, env, "a.flag", value, "reads back")
    same(sx, env, before, "a.flag")


@case("P11", [{"name": "c.single"}, {"name": "c.double"}], budget=40,
      bounds="every single-precision value (NaN included)")
def floats(sx, name):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    value = type(create("float")).decode(sx.bytes("value", 4))
    key, _ = keys(sx, env, name)
    env.set(key, value)
    both(sx, env, name, value, "reads back")
    same(sx, env, before, name)


@case("P11", budget=40, bounds="every raw value, and every value that scales to one")
def scaled(sx):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    raw = sx.int("raw", -32768, 32767)
    key, _ = keys(sx, env, "c.scaled")
    how = sx.pick("how", ["scaled", "raw"])
    if how == "scaled":
        env.set(key, 3 + 2 * raw)
    else:
        env.set(key, raw, scaled=False)
    both(sx, env, "c.scaled", raw, "raw value", scaled=False)
    both(sx, env, "c.scaled", 3 + 2 * raw, "scaled value")
    same(sx, env, before, "c.scaled")


@case("P11", [{"name": n} for n in ("b.mode", "c.power", "w.mode", "w.power")],
      budget=40, bounds="every listed item, by its name or its value")
def enums(sx, name):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    items = dict(POWER if name.endswith("power") else MODE)
    if name == "w.mode":
        del items["max"]
    item = sx.pick("item", list(items))
    key, _ = keys(sx, env, name)
    env.set(key, item if sx.pick("how", ["name", "value"]) == "name" else items[item])
    both(sx, env, name, item, "item")
    both(sx, env, name, items[item], "item's value", resolve_enum=False)
    same(sx, env, before, name)


@case("P11", [{"name": "b.mode"}, {"name": "w.mode"}], budget=40,
      bounds="every value, listed or not")
def unlisted(sx, name):
    """Values an enum doesn't list are read as they are."""
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    value = sx.int("value", 0, 3 if name == "w.mode" else 255)
    key, _ = keys(sx, env, name)
    env.set(key, value)
    want = value
    for item, num in MODE.items():
        if value == num:
            want = item
    both(sx, env, name, want, "reads back")
    both(sx, env, name, value, "item's value", resolve_enum=False)
    same(sx, env, before, name)
    # and survive a round trip through a map of values
    other = build()
    other.apply(env.values())
    both(sx, other, name, want, "applied elsewhere")


@case("P11", [{"name": n} for n in ("w.flag", "w.wide")], budget=40,
      bounds="every value of the field, every earlier value of the word")
def fields(sx, name):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    index, width = FIELDS[name]
    value = sx.bool("value") if width == 1 else sx.int("value", 0, 2 ** width - 1)
    key, _ = keys(sx, env, name)
    env.set(key, value)
    both(sx, env, name, value, "reads back")
    same(sx, env, before, name)
    got = env.fields.fields[0].raw.value >> index & (2 ** width - 1)
    sx.check(got == (sx.ite(value, 1, 0) if width == 1 else value), "stored")


@case("P11", [{"name": n, "n": k} for n in ("a.u8", "b.i64") for k in (1, 2)] +
      [{"name": "w.wide", "n": 1}],
      thorough=[{"name": "a.i16", "n": 3}, {"name": "w.wide", "n": 2}],
      budget=60, bounds="every text of up to 2 (thorough 3) digits, signs, dots "
      "and letters")
def number_text(sx, name, n):
    """Text given to an integer is parsed, or refused without any effect."""
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    text = sx.str("text", n, alphabet="0179-+.x")
    key, _ = keys(sx, env, name)
    digits = text[1:] if n > 1 and (text[0] == "-" or text[0] == "+") else text
    valid = all("0" <= c and c <= "9" for c in digits) and len(digits) > 0
    if name == "w.wide" and valid:
        # a field holds what fits
        sx.assume(int(text) >= 0)
        sx.assume(int(text) < 32)
    try:
        env.set(key, text)
        done = True
    except ValueError:
        done = False
    sx.check(done is valid, "parsed only when it's an integer")
    if done:
        value = 0
        for c in digits:
            value = value * 10 + ord(c) - 48
        if n > 1 and text[0] == "-":
            value = -value
        if name == "a.u8":
            # out of range values saturate
            value = sx.ite(value < 0, 0, value)
        both(sx, env, name, value, "parsed")
        same(sx, env, before, name)
    else:
        same(sx, env, before, None, "nothing changes")


WORDS = {"true": True, "True": True, "TRUE": True, "false": False,
         "False": False, "tRuE": True, "fAlSe": False}


@case("P11", budget=40, bounds="true and false in any case; other words; number text "
      "for floats and scaled integers")
def word_text(sx):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    name = sx.pick("name", ["a.flag", "w.flag", "c.double", "c.scaled"])
    key, _ = keys(sx, env, name)
    if name.endswith("flag"):
        word = sx.pick("word", list(WORDS) + ["", "maybe", "truee", "up"])
        ok, want = word in WORDS, WORDS.get(word)
    else:
        word = sx.pick("word", ["3", "5.0", "-7", "1e2", "x", "", "1.5.2"])
        try:
            want, ok = float(word), True
        except ValueError:
            ok = False
        if ok and name == "c.scaled":
            want = 3 + 2 * round((want - 3) / 2)
    try:
        env.set(key, word)
        done = True
    except ValueError:
        done = False
    sx.check(done is ok, "accepted only when it's understood")
    if done:
        both(sx, env, name, want, "parsed")
        same(sx, env, before, name)
    else:
        same(sx, env, before, None, "nothing changes")


@case("P11", [{"name": n} for n in ("b.mode", "c.power", "w.mode")], budget=60,
      bounds="every text of 2 to 4 letters drawn from the items' letters")
def item_text(sx, name):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    items = dict(POWER if name.endswith("power") else MODE)
    if name == "w.mode":
        del items["max"]
    alphabet = "updown" if name.endswith("power") else "offlwhig"
    text = sx.str("text", sx.size("n", 2, 4), alphabet=alphabet)
    key, _ = keys(sx, env, name)
    hit = None
    for item in items:
        if text == item:
            hit = item
    try:
        env.set(key, text)
        done = True
    except KeyError:
        done = False
    sx.check(done is (hit is not None), "only listed items are accepted")
    if done:
        both(sx, env, name, hit, "item")
        same(sx, env, before, name)
    else:
        same(sx, env, before, None, "nothing changes")


@case("P11", budget=40, bounds="every identifier up to 200, every 3-letter name")
def unknown(sx):
    env = build()
    scramble(sx, env)
    before = snapshot(env)
    if sx.pick("by", ["name", "id"]) == "id":
        key = sx.int("key", 0, 200)
        known = key >= 1 and key <= len(CHANNELS) + len(FIELDS)
        sx.assume(not known)
    else:
        key = sx.str("key", 3, alphabet="abcw.")
    sx.check(not env.exists(key), "doesn't exist")
    sx.check(env.get(key) is None, "isn't found")
    sx.check(env.field_or_channel(key) is None, "isn't found as either")
    for op in (lambda: env.set(key, 1), lambda: env.value(key), lambda: env[key],
               lambda: env.get_int(key), lambda: env.add_int(key, 1)):
        try:
            op()
            sx.fail("an unknown key was accepted")
        except KeyError:
            pass
    same(sx, env, before, None, "nothing changes")


@case("P11", budget=40, bounds="every channel and field")
def lookups(sx):
    env = build()
    name = sx.pick("name", CHANNELS + list(FIELDS))
    key, _ = keys(sx, env, name)
    sx.check(env.exists(key), "exists")
    kind = None
    if name in CHANNELS:
        chan, enum = env[key]
        sx.check(chan is env.channels.items[name], "channel found")
        sx.check(env.field_or_channel(key) is chan, "found as either")
        has = "mode" in name or "power" in name
        sx.check((enum is not None) is has, "enum found")
        if has:
            sx.check(enum is env.enums[name.split(".")[1]], "right enum")
        kind = "bool" if chan.type.is_boolean else (
            "int" if chan.type.is_integer else "float")
    else:
        sx.check(env.get(key) is None, "a field is not a channel")
        sx.check(env.field_or_channel(key) is env.fields.fields[0].fields[name],
                 "field found")
    for want, find in (("bool", env.get_bool), ("int", env.get_int),
                       ("float", env.get_float)):
        try:
            got = find(key)
            got = got if want == "float" else got[0]
            sx.check(kind == want and got is env.channels.items[name], "typed lookup")
        except KeyError:
            sx.check(kind != want, "typed lookup finds its type")


@case("P11", [{"name": n} for n in INTS], budget=40,
      bounds="every value and every amount that stays in the type's range")
def increments(sx, name):
    env = build()
    scramble(sx, env)
    lo, hi = BOUNDS[INTS[name]]
    start = env.value(name)
    amount = sx.int("amount", lo, hi)
    sx.assume(start + amount >= lo)
    sx.assume(start + amount <= hi)
    before = snapshot(env)
    key, _ = keys(sx, env, name)
    sx.check(env.add_int(key, amount) == start + amount, "returns the new value")
    both(sx, env, name, start + amount, "incremented")
    same(sx, env, before, name)


@case("P11", budget=60, bounds="every value of every channel and field")
def value_maps(sx):
    """All values at once: what is read from one environment fills another."""
    env = build()
    scramble(sx, env)
    for name in ("c.single", "c.double"):
        env[name] = type(create("float")).decode(sx.bytes(name, 4))
    resolve = sx.concrete(sx.bool("resolve"))
    values = env.values(resolve_enum=resolve)
    nan = [n for n in ("c.single", "c.double") if math.isnan(env.value(n))]
    sx.check(list(values) == [n for n in CHANNELS + list(FIELDS) if n not in nan] or
             sorted(values) == sorted(n for n in CHANNELS + list(FIELDS)
                                      if n not in nan), "all but NaN")
    for name, value in values.items():
        sx.check(sx.eq(value, env.value(name, resolve_enum=resolve)), "value listed")
    other = build()
    other.apply(values)
    after = snapshot(other)
    for name, data in snapshot(env).items():
        if name not in nan:
            if name == "w":
                mask = 0b111111111
                sx.check(after[name] & mask == data & mask, "applied")
            else:
                sx.check(after[name] == data, "applied")


ARRAY = {"p": ("chan", "uint8"), "q": ("chan", "uint16"), "r": ("chan", "int32"),
         "x1": ("word", 0), "x2": ("word", 0), "y1": ("word", 1), "y2": ("word", 1)}


def array_env():
    env = ChannelEnvironment()
    first, second = BitFields.new("uint8"), BitFields.new("uint16")
    for name in ("x1", "x2"):
        first.flag(name)
    for name in ("y1", "y2"):
        second.flag(name)
    env.int_channel("p", "uint8")
    env.fields.add(first)
    env.int_channel("q", "uint16")
    env.int_channel("r", "int32")
    env.fields.add(second)
    env.finalize()
    return env


def expected_array(chosen):
    """Which words each name brings in, or None when the order is refused."""
    out, seen, closed, current = [], set(), set(), None
    for name in chosen:
        if name in seen:
            return None
        seen.add(name)
        kind, which = ARRAY[name]
        if kind == "chan":
            if current is not None:
                closed.add(current)
            current = None
            out.append(name)
        else:
            if which != current:
                if current is not None:
                    closed.add(current)
                if which in closed:
                    return None
                current = which
                out.append(which)
    return out


@case("P11", [{"n": 3}], thorough=[{"n": 4}, {"n": 5}], budget=60,
      bounds="every list of 3 (thorough 5) of 7 channels and fields, repeats included; "
      "every value of each")
def arrays(sx, n):
    env = array_env()
    names = list(ARRAY)
    chosen = [sx.pick("k%d" % i, names) for i in range(n)]
    vals = {}
    for name, kind in (("p", "uint8"), ("q", "uint16"), ("r", "int32")):
        lo, hi = {"uint8": (0, 255), "uint16": (0, 65535),
                  "int32": (-2 ** 31, 2 ** 31 - 1)}[kind]
        vals[name] = sx.int(name, lo, hi)
        env[name] = vals[name]
    for i, hi in ((0, 255), (1, 65535)):
        vals[i] = sx.int("word%d" % i, 0, hi)
        env.fields.fields[i].raw.value = vals[i]
    size = {"p": 1, "q": 2, "r": 4, 0: 1, 1: 2}
    want = expected_array(chosen)
    use = [env.channels.names.identifier(c) if i % 2 else c
           for i, c in enumerate(chosen)]
    try:
        got = env.array(use)
    except AssertionError:
        sx.check(want is None, "this order is fine")
        return
    sx.check(want is not None, "repeats and split bit fields are refused")
    sx.check(got.names == chosen, "names in order")
    sx.check(got.array.size == sum(size[w] for w in want), "size")
    data = b"".join(
        (vals[w] % (1 << 8 * size[w])).to_bytes(size[w], "big") for w in want)
    sx.check(bytes(got.array) == data, "the primitives in order")
    new = sx.bytes("new", got.array.size)
    got.array.update(new)
    at = 0
    for w in want:
        raw = env.fields.fields[w].raw if isinstance(w, int) else env.channels[w].raw
        sx.check(bytes(raw) == new[at:at + size[w]], "the environment's own primitives")
        at += size[w]


@case("P11", budget=40, bounds="every default and every later value")
def defaults(sx):
    """A channel starts at its default, and counts as having one."""
    env = ChannelEnvironment()
    default = sx.int("default", 0, 255)
    env.int_channel("with", "uint8", default=default)
    env.int_channel("without", "uint8")
    sx.check(env.value("with") == default, "starts at its default")
    sx.check(env.value("without") == 0, "starts at zero")
    sx.check(env.num_defaults == 1, "counted")
    env["with"] = sx.int("value", 0, 255)
    other = sx.int("other", 0, 255)
    env.set_default("without", other)
    sx.check(env.num_defaults == 2, "counted")
    sx.check(env.value("without") == 0, "setting a default changes no value")
    for name, value in (("with", default), ("without", other)):
        env[name][0].set_default()
        sx.check(env.value(name) == value, "restored")


@case("P11", budget=40, bounds="a channel of 3 kinds added to an environment that's final or "
      "not, with or without a bypass, which ends with an error or not; the age of either")
def closed(sx):
    """A final environment takes no more channels, but while that's bypassed."""
    env = ChannelEnvironment()
    now = [sx.int("now", 100, 1000)]
    prim = Uint8(time_source=lambda: now[0])
    env.int_channel("first", prim)
    final, bypass = sx.pick("final", [True, False]), sx.pick("bypass", [True, False])
    fail = sx.pick("fail", [True, False])
    add = {"int": env.int_channel, "bool": env.bool_channel,
           "float": env.float_channel}[sx.pick("kind", ["int", "bool", "float"])]
    if final:
        env.finalize()

    def refused(name):
        try:
            add(name)
        except AssertionError:
            return True
        return False

    if bypass:
        try:
            with env.bypass_finalized():
                sx.check(not env.finalized, "not, for now")
                sx.check(not refused("second"), "bypassed")
                try:
                    with env.bypass_finalized():
                        sx.fail("bypassed once at a time")
                except AssertionError:
                    pass
                if fail:
                    raise KeyError("fail")
        except KeyError:
            sx.check(fail, "the error is that one")
    sx.check(env.exists("second") == bypass, "added")
    sx.check(env.finalized is final, "final, or not, again")
    sx.check(refused("third") is final, "refused")
    sx.check(env.exists("third") is not final, "changes nothing when refused")
    stamp = sx.int("stamp", 0, 100)
    prim.set_value(sx.int("value", 0, 255), timestamp_ns=stamp)
    sx.check(env.age_ns("first") == now[0] - stamp, "age")
