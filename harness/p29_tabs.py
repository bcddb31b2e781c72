"""P29: what browsers are told about channel environments, and their pages."""

from html.parser import HTMLParser
import logging
import types

from svgen.element.html import Html, div

from harness.p23_connections import loop_run
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.net.html.bootstrap.tabs import TabbedContent
from runtimepy.net.server import websocket
from runtimepy.net.server.app.create import create_app, create_cacheable_app
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.struct import UiState
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.primitives import Bool, Uint8, Uint16
from runtimepy.primitives.field.fields import BitFields
from sx.registry import case

ASSUMPTIONS = ["websockets are replaced by recorders"]
LOG = logging.getLogger("p29")
LOG.disabled = True


class Socket:
    logger = LOG


class Logger(logging.Logger):
    """A logger that can't be switched off."""

    def __init__(self, name):
        super().__init__(name)
        self.parent = logging.Logger("parent")
        self.parent.addHandler(logging.NullHandler())

    def isEnabledFor(self, level):
        return True


class Page(RuntimepyWebsocketConnection):
    """A connection to a browser, which keeps what it is told."""

    def init(self):
        super().init()
        self.told, self.logs, self.points, self.other = {}, {}, {}, []

    def send_json(self, data, addr=None):
        for name, message in data.get("ui", {}).items():
            told = self.told.setdefault(name, {})
            for key, value in message.items():
                if key == "points":
                    for chan, points in value.items():
                        self.points.setdefault((name, chan), []).extend(
                            x[0] for x in points)
                        told[chan] = points[-1][0]
                elif key == "log_messages":
                    self.logs.setdefault(name, []).extend(value)
                else:
                    told[key] = value

    def ui(self, message):
        return self.process_json({"ui": message})

    def tab(self, name, kind, **kwargs):
        return self.ui({"name": name, "event": {"kind": kind, **kwargs}})


def page():
    conn = Page(Socket())
    conn.logger = LOG
    conn.told = {}
    return conn


def environment():
    env = ChannelEnvironment()
    raw = {"a": Uint16(), "b": Bool(), "m": Uint8()}
    env.enum("Mode", "int", items={"off": 0, "on": 1})
    env.channel("a", raw["a"], commandable=True)
    env.channel("b", raw["b"], commandable=True, description='say "hi" & <go>')
    env.channel("m", raw["m"], enum="Mode", commandable=True)
    fields = BitFields.new("uint8")
    fields.field("f", 3, commandable=True)
    fields.flag("g", commandable=True, description='<b>"flag"')
    env.fields.add(fields)
    env.finalize()
    return env


class App:
    """Stands in for application information."""

    logger = LOG

    def __init__(self, **config):
        self.config = config

    def config_param(self, key, default, strict=False):
        return self.config.get(key, default)


def tab(name, env, logger=LOG, document=None):
    document = document or Html("test")
    ChannelEnvironmentTab(name, ChannelCommandProcessor(env, logger), App(),
                          TabbedContent("test", document.body))
    return document


def reset():
    ChannelEnvironmentTab.all_tabs.clear()
    websocket.UiState = UiState
    UiState.singleton = staticmethod(lambda: None)


def same(sx, told, env, names):
    for name in names:
        value = env.value(name)
        have = told.get(name)
        sx.check(have is not None and sx.all(have == value),
                 "a shown tab has the values of its channels")


NAMES = ["a", "b", "m", "f", "g"]
STEPS = ["a", "m", "f", "frame", "shown", "hidden"]


@case("P29", [{"first": s} for s in STEPS[:3] + ["frame", "hidden"]],
      [{"first": s, "n": 4} for s in STEPS], budget=120,
      bounds="3 (4) steps of 6 kinds (3 of them a change to every value) between "
      "showing a tab, hiding it and showing it again")
def values(sx, first, n=3):
    """A browser has the values of the tab it shows after every frame."""
    reset()
    env = environment()
    tab("env", env)
    conn = page()
    shown, count = True, 0
    env.set("a", sx.int("start", 0, 3))
    now = {"a": env.value("a"), "m": "off", "f": 0}

    async def main():
        nonlocal shown
        changes = []
        await conn.tab("env", "tab.shown")
        same(sx, conn.told.get("env", {}), env, NAMES)
        steps = [first] + [sx.pick("s%d" % i, STEPS) for i in range(1, n)]
        for i, step in enumerate(steps):
            if step == "frame":
                await conn.ui({"time": 10 * i})
                if shown:
                    same(sx, conn.told.get("env", {}), env, NAMES)
            elif step in ("shown", "hidden"):
                shown = step == "shown"
                await conn.tab("env", "tab." + step)
                if shown:
                    same(sx, conn.told.get("env", {}), env, NAMES)
                changes = None
            else:
                if step == "a":
                    value = sx.int("v%d" % i, 0, 65535)
                elif step == "f":
                    value = sx.int("v%d" % i, 0, 7)
                else:
                    value = sx.pick("v%d" % i, ["off", "on"])
                if changes is not None and step == "a" and bool(
                        env.value("a") != value):
                    changes.append(value)
                env.set(step, value)
                now[step] = value
        await conn.ui({"time": 100})
        if shown:
            same(sx, conn.told.get("env", {}), env, NAMES)
        if changes is not None:
            got = conn.points.get(("env", "a"), [])
            sx.check(len(got) == len(changes), "every change is a point, once")
            for x, y in zip(got, changes):
                sx.check(x == y, "points are the changes, in order")
        await conn.tab("env", "tab.shown")
        same(sx, conn.told.get("env", {}), env, NAMES)
        conn.disable("test")
        for name in NAMES:
            chan = env.field_or_channel(name)
            sx.check(not chan.raw.callbacks, "nothing is observed after the end")
        for name, value in now.items():
            sx.check(env.value(name) == value, "browsers change nothing")

    loop_run(main())


@case("P29", budget=60, bounds="2 browsers, each showing either of 2 tabs with the same "
      "names or none, or closed, and 2 changes to every value of either environment")
def browsers(sx):
    """Tabs and browsers don't affect each other."""
    reset()
    envs = [environment(), environment()]
    for i, env in enumerate(envs):
        tab("env%d" % i, env)
    conns = [page(), page()]
    shows = [sx.pick("shows%d" % i, [None, 0, 1]) for i in range(2)]
    closed = sx.pick("closed", [None, 0, 1])

    async def main():
        for conn, show in zip(conns, shows):
            if show is not None:
                await conn.tab("env%d" % show, "tab.shown")
        if closed is not None:
            conns[closed].disable("test")
        for i in range(2):
            envs[sx.pick("env%d" % i, [0, 1])].set("a", sx.int("v%d" % i, 0, 65535))
        for i, conn in enumerate(conns):
            if i == closed:
                continue
            await conn.ui({"time": 5})
            if shows[i] is not None:
                same(sx, conn.told["env%d" % shows[i]], envs[shows[i]], NAMES)
            for key in conn.told:
                sx.check(key == "env%s" % shows[i] or not conn.told[key],
                         "only about tabs that are shown")

    loop_run(main())


KINDS = ["command", "init", "tab.shown", "tab.hidden", "other"]


@case("P29", budget=60, bounds="2 messages of 5 kinds (with 6 commands) for 2 tabs or "
      "another")
def commands(sx):
    """A command from a browser does what it says in the environment of its tab."""
    reset()
    envs = [environment(), environment()]
    refs = [environment(), environment()]
    for i, env in enumerate(envs):
        tab("env%d" % i, env)
    conn = page()
    texts = ["set a 12", "toggle b", "set m on", "set a -1", "set x 1", "set g true"]

    async def main():
        for i in range(2):
            which = sx.pick("which%d" % i, [0, 1, 2])
            kind = sx.pick("kind%d" % i, KINDS)
            text = sx.pick("text%d" % i, texts) if kind == "command" else "set a 1"
            await conn.tab("env%d" % which, kind, value=text)
            if kind == "command" and which < 2:
                ChannelCommandProcessor(refs[which], LOG).command(text)
            for env, ref in zip(envs, refs):
                sx.check(env.values() == ref.values(), "exactly that is done")

    loop_run(main())


@case("P29", budget=110, bounds="2 tabs, initialised up to twice and shown before that or not, 3 messages to either "
      "log, with or without a frame after each, and a browser that closes or not")
def logs(sx):
    """A browser gets what is logged for a tab, once and in order."""
    reset()
    loggers = [Logger("a"), Logger("b")]
    for i, logger in enumerate(loggers):
        tab("env%d" % i, environment(), logger)
    conn = page()
    inits = [sx.pick("inits%d" % i, [0, 1, 2]) for i in range(2)]
    expect = [[], []]
    shown = sx.pick("shown", [None, 0])

    async def main():
        for i in range(2):
            if i == shown:
                await conn.tab("env%d" % i, "tab.shown")
            for _ in range(inits[i]):
                await conn.tab("env%d" % i, "init")
        for name in ("env0", "env1"):
            conn.tabs[name].tab_logger.drain_str()
        closed = False
        for i in range(3):
            which = sx.pick("which%d" % i, [0, 1])
            loggers[which].warning("message %d", i)
            if inits[which] and not closed:
                expect[which].append("message %d" % i)
            after = sx.pick("after%d" % i, ["frame", "nothing"]
                            + (["close"] if i == 1 else []))
            if after == "frame" and not closed:
                await conn.ui({"time": i})
            elif after == "close":
                if not closed:
                    await conn.ui({"time": i})
                conn.disable("test")
                closed = True
                sx.check(not any(x.handlers for x in loggers), "not logged to anymore")
        if not closed:
            await conn.ui({"time": 9})
        for i in range(2):
            got = conn.logs.get("env%d" % i, [])
            sx.check(len(got) == len(expect[i]), "every message once")
            sx.check(all(y in x for x, y in zip(got, expect[i])), "in order")

    loop_run(main())


class State(UiState):
    """User-interface state without an application."""

    def __init__(self, env):
        self.env, self.config, self.polls = env, {"psutil": False}, 0

    def poll(self):
        self.polls += 1
        super().poll()


@case("P29", budget=60, bounds="3 browsers that open and send frames, of which one "
      "closes in between, at every time of 1 second, with state from the start or later")
def frames(sx):
    """The state of the user interface is updated by one of the open browsers."""
    reset()
    env = ChannelEnvironment()
    state = State(env)
    state.init_env()
    env.finalize()
    UiState.singleton = staticmethod(lambda: state)
    conns = [page() for _ in range(3)]
    for conn in conns:
        conn.poll_governor = lambda: True
    closes = sx.pick("closes", [None, 0, 1, 2])
    opens = sx.pick("opens", [1, 2, 3])
    late = sx.pick("late", [False, True])
    if late:
        UiState.singleton = staticmethod(lambda: None)
    rounds, now = [[], []], 0
    times = [0, 0, 0]

    async def main():
        nonlocal now
        for turn in range(2):
            if turn:
                UiState.singleton = staticmethod(lambda: state)
            for i, conn in enumerate(conns[:opens]):
                if turn and i == closes:
                    continue
                conn.metrics.rx.messages.value = 10 * i + turn
                before, now = state.polls, sx.int("t%d%d" % (turn, i), 0, 1000)
                await conn.ui({"time": now})
                rounds[turn].append(state.polls - before)
                if state.polls != before:
                    sx.check(env.value("time_ms") == now, "the time is a frame's")
                    sx.check(env.value("frame_period_ms") == now - times[i],
                             "the period is that of one browser's frames")
                    sx.check(state.json_metrics.rx.messages.value == 10 * i + turn,
                             "metrics are those of the connection")
                times[i] = now
            if closes is not None and not turn and closes < opens:
                conns[closes].disable("test")
        count = opens - (1 if closes is not None and closes < opens else 0)
        sx.check(env.value("num_connections") == count, "the number of browsers")
        sx.check(sum(rounds[0]) == (0 if late else 1),
                 "one of them updates the state")
        sx.check(sum(rounds[1]) == (1 if count else 0), "also when one closed")

    try:
        loop_run(main())
    finally:
        reset()


class Parser(HTMLParser):
    """Collects the elements of a page."""

    def __init__(self):
        super().__init__()
        self.elements = []

    def handle_starttag(self, tag_, attrs):
        self.elements.append((tag_, dict(attrs)))


KINDS_OF = ["int", "bool", "enum", "float", "onoff", "field", "bits", "flag", "slider"]
DEFAULTS = {"int": (1, 0), "bool": (True, False), "float": (1.5, 0.0),
            "slider": (3, 0), "onoff": (True, False)}


@case("P29", [{"kind": x} for x in KINDS_OF], [{"kind": x, "n": 3} for x in KINDS_OF],
      budget=60,
      bounds="channels of 6 kinds and fields of 3, each commandable or not, with a "
      "default or not, and descriptions of any 2 (3) of 5 characters")
def pages(sx, kind, n=2):
    """A page has a row for every channel, with controls for what can be changed."""
    reset()
    env = ChannelEnvironment()
    env.enum("Mode", "int", items={"off": 0, "on": 1})
    can = sx.pick("can", [False, True])
    env.enum("State", "bool", items={"open": True, "shut": False})
    default = None
    if kind in DEFAULTS:
        default = sx.pick("default", [None, *DEFAULTS[kind]])
    about = sx.str("about", n, alphabet='a"<>&')
    about = "".join(chr(int(ord(x))) for x in about)
    kwargs = {"commandable": can, "description": about}
    if default is not None:
        kwargs["default"] = default
    if kind == "int":
        env.int_channel("x", "uint8", **kwargs)
    elif kind == "slider":
        env.int_channel("x", "uint8", controls={
            "slider": {"min": 2, "max": 10, "step": 8}}, **kwargs)
    elif kind in ("bool", "onoff"):
        if kind == "onoff":
            kwargs["enum"] = "State"
        env.bool_channel("x", **kwargs)
    elif kind == "float":
        env.float_channel("x", "float", **kwargs)
    elif kind == "enum":
        env.int_channel("x", "uint8", enum="Mode", **kwargs)
        if sx.pick("on", [False, True]):
            env.set("x", "on")
    else:
        fields = BitFields.new("uint8")
        if kind == "field":
            fields.field("x", 3, **kwargs)
        elif kind == "bits":
            fields.field("x", 2, enum="Mode", **kwargs)
        else:
            fields.flag("x", **kwargs)
        env.fields.add(fields)
    env.bool_channel("y")
    env.finalize()
    document = tab("env", env)
    parser = Parser()
    text = document.encode_str()
    parser.feed(text)
    rows = [a["id"] for t, a in parser.elements if t == "tr" and "id" in a]
    sx.check(sorted(rows) == sorted(env.names), "every channel has a row")
    tips = [a.get("data-bs-title") for t, a in parser.elements if t == "span"]
    sx.check(about in tips,
             "a description is shown as it is")
    boxes = [a for t, a in parser.elements
             if t == "input" and "channel-value-input" in a.get("class", "").split()]
    selects = [a for t, a in parser.elements if t == "select" and a.get("id") == "x"]
    toggles = [a for t, a in parser.elements if t == "button"
               and "toggle-value" in a.get("class", "").split()]
    resets = [a for t, a in parser.elements if t == "button"
              and "default-button" in a.get("class", "").split()]
    sx.check(len(boxes) == (
        1 if can and kind in ("int", "float", "field", "slider") else 0),
             "a value can be entered for what takes one")
    sx.check(len(selects) == (1 if can and kind in ("enum", "bits") else 0),
             "an item can be selected of an enumeration")
    sx.check(len(toggles) == (
        1 if can and kind in ("bool", "onoff", "flag") else 0),
             "what is on or off can be toggled")
    sx.check(len(resets) == (1 if can and default is not None else 0),
             "a default can be restored")
    ranges = [a for t, a in parser.elements
              if t == "input" and a.get("type") == "range"]
    sx.check(len(ranges) == (1 if can and kind == "slider" else 0), "sliders")
    for a in ranges:
        sx.check((a["min"], a["max"], a["step"], a["id"]) == ("2", "10", "1", "x"),
                 "sliders have their range")
    for a in resets:
        sx.check(a["value"] == str(default), "resets to the default")
    if selects:
        options = [a for t, a in parser.elements if t == "option"
                   and a.get("value") in ("0", "1")]
        chosen = [a["value"] for a in options if "selected" in a]
        sx.check(chosen == [str(
            env["x"][0].raw.value if kind == "enum" else env.fields["x"]())], "the current item is selected")


@case("P29", budget=60, bounds="3 requests for 2 applications, cached or not")
def cached(sx):
    """Every application has its own page, composed once when that's configured."""
    caching = sx.pick("caching", [True, False, None])
    info = App(**({} if caching is None else {"caching": caching}))
    composed = []

    def composer(name):
        def compose(app, tabs):
            composed.append(name)
            div(parent=tabs.content, id="%s-%d" % (name, composed.count(name)))

        return compose

    def main(app, document, request, response, data):
        composed.append("own")
        div(parent=document.body, id="own-%d" % composed.count("own"))
        return document

    apps = {"one": create_app(info, composer("one")),
            "two": create_app(info, composer("two")),
            "own": create_cacheable_app(info, main)}
    times = {}

    async def run():
        for i in range(3):
            name = sx.pick("app%d" % i, list(apps))
            text = (await apps[name](Html("test"), None, None, None)).encode_str()
            times[name] = times.get(name, 0) + 1
            index = times[name] if caching is False else 1
            for other in apps:
                for j in range(1, 4):
                    sx.check(('id="%s-%d"' % (other, j) in text) ==
                             (other == name and j == index), "the right page")
            sx.check(composed.count(name) == index, "composed when it has to be")

    loop_run(run())
