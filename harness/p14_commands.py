"""P14: channel commands: what is allowed, what changes, who is told."""

import asyncio
import logging
from argparse import Namespace

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.parser import ChannelCommand
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor, RemoteCommandProcessor,
)
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.primitives.field.fields import BitFields
from sx.registry import case

ASSUMPTIONS = ["commands are tokens separated by spaces"]

LOG = logging.getLogger("p14")
LOG.disabled = True

ITEMS = {"off": 0, "low": 1, "high": 3}
CHANS = {"flag": "bool", "u8": "uint8", "i16": "int16", "mode": "uint8",
         "scaled": "int16", "single": "float"}
FIELDS = {"w.flag": (0, 1), "w.wide": (3, 4), "w.mode": (1, 2)}


def build(commandable):
    """Everything commandable, or nothing."""
    env = ChannelEnvironment()
    env.enum("modes", "int", items=dict(ITEMS))
    for name, kind in CHANS.items():
        kw = {"enum": "modes"} if name == "mode" else {}
        if name == "scaled":
            kw["scaling"] = [4.0, 2.0]
        env.channel(name, kind, commandable=commandable, **kw)
    fields = BitFields.new("uint8")
    fields.flag("w.flag", commandable=commandable)
    fields.field("w.wide", 4, index=3, commandable=commandable)
    fields.field("w.mode", 2, index=1, enum="modes", commandable=commandable)
    env.fields.add(fields)
    # another of everything, the opposite way
    env.channel("other", "uint8", commandable=not commandable)
    env.finalize()
    return env


def fill(sx, env):
    env["flag"] = sx.bool("flag")
    env["u8"] = sx.int("u8", 0, 255)
    env["i16"] = sx.int("i16", -32768, 32767)
    env["mode"] = sx.int("mode", 0, 255)
    env.set("scaled", sx.int("scaled", -32768, 32767), scaled=False)
    env["single"] = 0.5
    env["other"] = sx.int("other", 0, 255)
    env.fields.fields[0].raw.value = sx.int("word", 0, 255)


def snapshot(env):
    out = {n: c.raw.value for n, c in env.channels.items.items()}
    out["w"] = env.fields.fields[0].raw.value
    return out


def same(sx, env, before, but=None):
    after = snapshot(env)
    for name, value in before.items():
        if name == "w" and but in FIELDS:
            index, width = FIELDS[but]
            mask = 0xFF & ~(((1 << width) - 1) << index)
            sx.check(after["w"] & mask == value & mask, "nothing else changes")
        elif name != but:
            sx.check(after[name] == value, "nothing else changes")


def processor(env, cls=ChannelCommandProcessor):
    proc, calls = cls(env, LOG), []
    proc.hooks.append(lambda args, chan: calls.append(("first", args, chan)))
    proc.hooks.append(lambda args, chan: calls.append(("second", args, chan)))
    return proc, calls


def run(sx, proc, tokens, text=None):
    """Run a command; text (which may be symbolic) is the value of a set."""
    if text is None:
        return proc.command(" ".join(tokens))
    if sx.symbolic:
        args = proc.parse(" ".join(tokens + ["0"]))
        sx.check(args is not None, "understood")
        args.extra = [text]
        return proc.handle_command(args)
    return proc.command(" ".join(tokens + [text]))


def told(sx, env, calls, name, command, ok):
    """Each hook is told once of what was done, in order."""
    if not ok:
        sx.check(calls == [], "nobody is told of failures")
        return
    sx.check([c[0] for c in calls] == ["first", "second"], "hooks run once, in order")
    for _, args, chan in calls:
        sx.check(args.command == command and args.channel == name, "what was done")
        sx.check(chan is env.field_or_channel(name), "to what")


NAMES = list(CHANS) + list(FIELDS)
FORCE = [[], ["-f"], ["--force"]]


@case("P14", [{"name": n} for n in NAMES], budget=60,
      bounds="every earlier state; commandable or not, forced or not")
def toggles(sx, name):
    commandable = sx.pick("commandable", [True, False])
    force = sx.pick("force", FORCE)
    env = build(commandable)
    fill(sx, env)
    before = snapshot(env)
    proc, calls = processor(env)
    first = sx.pick("first", [True, False])
    res = run(sx, proc, (force if first else []) + ["toggle", name] +
              ([] if first else force))
    allowed = commandable or bool(force)
    ok = allowed and (name == "flag" or name in FIELDS)
    sx.check(bool(res) is ok, "toggles only what can be and may be")
    sx.check(ok or bool(res.reason), "a refusal has a reason")
    told(sx, env, calls, name, "toggle", ok)
    if not ok:
        same(sx, env, before)
        return
    same(sx, env, before, name)
    if name == "flag":
        sx.check(env.value(name) != before[name], "toggled")
    else:
        index, width = FIELDS[name]
        mask = (1 << width) - 1
        sx.check(env.fields[name]() == ~(before["w"] >> index) & mask, "inverted")


@case("P14", [{"name": n, "n": k} for n in ("u8", "i16", "w.wide") for k in (1, 2)],
      thorough=[{"name": "u8", "n": 3}, {"name": "i16", "n": 3}], budget=60,
      bounds="every text of up to 2 (thorough 3) digits, signs and letters; every "
      "earlier state; commandable or not, forced or not")
def number_sets(sx, name, n):
    commandable = sx.pick("commandable", [True, False])
    force = sx.pick("force", FORCE[:2])
    env = build(commandable)
    fill(sx, env)
    before = snapshot(env)
    proc, calls = processor(env)
    text = sx.str("text", n, alphabet="019-+z")
    sx.assume(text[0] != "-")
    digits = text[1:] if text[0] == "+" else text
    valid = len(digits) > 0 and all("0" <= c and c <= "9" for c in digits)
    res = run(sx, proc, force + ["set", name], text)
    ok = (commandable or bool(force)) and valid
    sx.check(bool(res) is ok, "sets only what is allowed and valid")
    sx.check(ok or bool(res.reason), "a refusal has a reason")
    told(sx, env, calls, name, "set", ok)
    if not ok:
        same(sx, env, before)
        return
    same(sx, env, before, name)
    value = 0
    for c in digits:
        value = value * 10 + ord(c) - 48
    if name == "u8":
        value = sx.ite(value > 255, 255, value)
    if name == "w.wide":
        value = value % 16
    sx.check(env.value(name) == value, "the value given")


WORDS = {
    "flag": {"true": True, "FALSE": False, "1": None, "maybe": None},
    "mode": {"low": "low", "off": "off", "3": "high", "2": None, "Low": None},
    "w.mode": {"high": "high", "1": "low", "2": None, "x": None},
    "w.flag": {"true": True, "False": False, "1": True, "0": False, "yes?": None},
    "single": {"1.5": 1.5, "-2": -2.0, "x": None, "": "missing"},
    "scaled": {"10": 10, "-4.0": -4, "1e400": None, "inf": None, "nan": None,
               "1,2": None},
}


@case("P14", [{"name": n} for n in WORDS], budget=60,
      bounds="words of each kind; every earlier state; commandable or not, forced or "
      "not")
def word_sets(sx, name):
    commandable = sx.pick("commandable", [True, False])
    force = sx.pick("force", FORCE[:2])
    env = build(commandable)
    fill(sx, env)
    before = snapshot(env)
    proc, calls = processor(env)
    text = sx.pick("text", list(WORDS[name]))
    want = WORDS[name][text]
    res = run(sx, proc, ["set", name, text] + force)
    ok = (commandable or bool(force)) and want is not None and want != "missing"
    sx.check(bool(res) is ok, "sets only what is allowed and valid")
    sx.check(ok or bool(res.reason), "a refusal has a reason")
    told(sx, env, calls, name, "set", ok)
    if ok:
        sx.check(env.value(name) == want, "the value given")
        same(sx, env, before, name)
    else:
        same(sx, env, before)


@case("P14", [{"name": n} for n in NAMES], budget=60,
      bounds="several values of each; commandable or not, forced or not")
def gets(sx, name):
    commandable = sx.pick("commandable", [True, False])
    force = sx.pick("force", FORCE[:2])
    env = build(commandable)
    value = {"flag": [False, True], "w.flag": [False, True],
             "mode": ["off", "high", 77], "w.mode": ["low", 2], "single": [0.5, -3.0],
             "i16": [-7, 0], "scaled": [10.0, -4.0]}.get(name, [0, 9])
    fill(sx, env)
    want = sx.pick("value", value)
    env[name] = want
    before = snapshot(env)
    proc, calls = processor(env)
    res = run(sx, proc, force + ["get", name])
    sx.check(bool(res), "anything can be read")
    sx.check(res.reason == str(want), "its value")
    sx.check(calls == [], "nobody is told of reads")
    same(sx, env, before)


BAD = ["", "set", "get", "toggle", "bogus flag", "SET flag true", "set nope 1",
       "get nope", "toggle nope", "set flag", "help", "-h", "--bogus set flag true",
       "set flag --bogus true", "-f", "set -e", "set -f nope 1", "true set flag"]


@case("P14", budget=60, bounds="18 malformed commands or unknown names; every state")
def malformed(sx):
    env = build(True)
    fill(sx, env)
    before = snapshot(env)
    proc, calls = processor(env)
    res = run(sx, proc, [sx.pick("command", BAD)])
    sx.check(not res, "refused")
    sx.check(bool(res.reason), "with a reason")
    sx.check(calls == [], "nobody is told")
    same(sx, env, before)
    # and the next command isn't affected
    old = env.value("flag")
    res = run(sx, proc, ["toggle", "flag"])
    sx.check(bool(res) and env.value("flag") != old, "the next command works")
    sx.check(len(calls) == 2, "and is told")


@case("P14", [{"cls": c} for c in ("local", "peer")], budget=60,
      bounds="every kind of command, flags anywhere, any name, every state")
def remote(sx, cls):
    """Commands for elsewhere are handed on, and change nothing here."""
    env = build(sx.pick("commandable", [True, False]))
    fill(sx, env)
    before = snapshot(env)
    proc, calls = processor(
        env, ChannelCommandProcessor if cls == "local" else RemoteCommandProcessor)
    command = sx.pick("command", ["set", "toggle", "get", "custom"])
    name = sx.pick("name", ["flag", "w.flag", "nope"])
    tokens = [command, name] + (["true"] if command == "set" else [])
    handed = cls == "peer" or command == "custom"
    if sx.pick("remote", [True, False]) or not handed:
        handed = True
        at = sx.pick("at", [0, 1, len(tokens)])
        tokens = tokens[:at] + [sx.pick("flag", ["-r", "--remote"])] + tokens[at:]
    res = run(sx, proc, tokens)
    sx.check(bool(res), "handed on")
    sx.check([c[0] for c in calls] == ["first", "second"], "to each hook once")
    for _, args, chan in calls:
        sx.check(chan is None and args.command == command and args.channel == name,
                 "as it was given")
        sx.check(args.extra == (["true"] if command == "set" else []), "with its value")
    same(sx, env, before)


class Owner(AsyncCommandProcessingMixin):
    def __init__(self, command):
        super().__init__(logger=LOG)
        self.command = command
        self.log = []

    async def handle_command(self, args, channel):
        self.log.append((str(args.command), args.channel, channel))


@case("P14", [{"n": 3}], thorough=[{"n": 4}], budget=60,
      bounds="every history of 3 (thorough 4) commands, processed at any point")
def queued(sx, n):
    """Queued commands are each handled once, in order, by the right handler."""
    env = build(True)
    fill(sx, env)
    owner = Owner(ChannelCommandProcessor(env, LOG))

    async def mine(args, channel):
        owner.log.append(("mine", list(args.extra), channel))

    async def yours(args, channel):
        owner.log.append(("yours", list(args.extra), channel))

    owner._setup_async_commands(mine)
    owner._setup_async_commands(yours)
    try:
        owner._setup_async_commands(mine)
        sx.fail("a custom command's name can't be used twice")
    except AssertionError:
        pass
    want = []
    loop = asyncio.new_event_loop()
    try:
        for i in range(n):
            kind = sx.pick("kind%d" % i, ["toggle", "mine", "-f mine", "-e other yours",
                                          "-r yours", "nope", "bad"])
            if kind == "toggle":
                owner.command.command("toggle flag")
                want.append(("toggle", "flag", env.channels["flag"]))
            elif kind == "bad":
                owner.command.command("toggle u8")
            else:
                owner.command.command("custom %s %d" % (kind, i))
                remote, kind = "-r" in kind, kind.split()[-1]
                if remote:
                    want.append(("custom", kind, None))
                elif kind != "nope":
                    want.append((kind, [str(i)], None))
            if sx.pick("run%d" % i, [False, True]) or i == n - 1:
                loop.run_until_complete(owner.process_command_queue())
                sx.check(owner.log == want, "each handled once, in order")
    finally:
        loop.close()


@case("P14", budget=40, bounds="every prefix among a few, every assignment of what is "
      "commandable")
def suggestions(sx):
    """A suggestion starts with what was typed, and prefers what's commandable."""
    env = ChannelEnvironment()
    names = ["ab.c", "ab.cd", "ab.cde", "x"]
    may = {n: sx.pick("may " + n, [False, True]) for n in names}
    for name in names:
        env.channel(name, "bool", commandable=may[name])
    env.finalize()
    proc, _ = processor(env)
    typed = sx.pick("typed", ["a", "ab.", "ab.c", "ab.cd", "y", "x"])
    got = proc.get_suggestion("set " + typed)
    if got is not None:
        command, name = got.split()
        sx.check(command == "set", "the same command")
        sx.check(name in names and name.startswith(typed), "completes it")
        fits = [n for n in names if n.startswith(typed) and n != typed and may[n]]
        sx.check(may[name] or not fits, "commandable ones come first")
        among = [n for n in names if n.startswith(typed) and may[n] == may[name]]
        sx.check(len(name) == min(map(len, among)), "the shortest one")
