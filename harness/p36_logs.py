"""P36: logs that are captured, forwarded and filtered."""

from contextlib import AsyncExitStack
import logging
import types

from vcorelib.logging import ListLogger

from harness.p23_connections import loop_run
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.mixins import logging as module
from runtimepy.mixins.logging import (LogCaptureMixin, LoggerMixinLevelControl, LogLevel,
                                      handle_safe_log)
from sx.registry import case

ASSUMPTIONS = ["files are replaced by texts that grow"]
LOG = logging.getLogger("p36")
LOG.disabled = True


class File:
    """A file that's read while it grows."""

    def __init__(self, text):
        self.text, self.at = text, 0

    async def seek(self, offset, whence=0):
        assert (offset, whence) == (0, 2)
        self.at = len(self.text)

    async def readline(self):
        rest = self.text[self.at:]
        for i in range(len(rest)):
            if bool(rest[i] == "\n"):
                rest = rest[:i + 1]
                break
        self.at += len(rest)
        return rest


class Recorder:
    """A logger."""

    def __init__(self, handlers=()):
        self.got, self.levels, self.name, self.handlers = [], [], "p36", list(handlers)

    def log(self, level, text, *args, extra=None):
        self.got.append((level, text, args, extra))

    def setLevel(self, level):
        self.levels.append(level)


class Capture(LogCaptureMixin):
    def __init__(self, logger):
        self.logger = logger


def lines(sx, text):
    """The complete lines of a text that aren't blank, and where the last one ends."""
    got, at = [], 0
    for i in range(len(text)):
        if bool(text[i] == "\n"):
            line = text[at:i]
            while len(line) and bool(line[-1] == " "):
                line = line[:-1]
            if len(line):
                got.append(line)
            at = i + 1
    return got


@case("P36", [{"n": 4}], [{"n": 5}], budget=90,
      bounds="any text of 4 (5) of 3 characters, in 3 parts of any size, with other text "
      "before")
def captured(sx, n):
    """Every line that's added to a file is logged once, whole and in order."""
    text = sx.str("text", n, alphabet="a\n ")
    first, second = sx.size("first", 0, n), sx.size("second", 0, n)
    sx.assume(first <= second)
    before = sx.pick("before", ["", "old\n"])
    level = sx.pick("level", ["debug", 20, LogLevel.ERROR])
    logger, file = Recorder(), File(before)
    capture = Capture(logger)
    opened = []

    class Opened:
        async def __aenter__(self):
            return file

        async def __aexit__(self, *_):
            opened.append("closed")

    old = module.aiofiles, module.normalize
    module.aiofiles = types.SimpleNamespace(
        open=lambda path, mode=None, **_: opened.append(path) or Opened())
    module.normalize = lambda path: types.SimpleNamespace(is_file=lambda: path == "here")

    async def main():
        async with AsyncExitStack() as stack:
            await capture.init_log_capture(stack, [("info", "missing"), (level, "here")])
            sx.check(opened == ["here"], "files that exist are read")
            await capture.dispatch_log_capture()
            for part in (first, second, n):
                file.text = before + text[:part]
                await capture.dispatch_log_capture()
                want = lines(sx, text[:part])
                sx.check(len(logger.got) == len(want), "every line once")
                for (number, line, args, extra), y in zip(logger.got, want):
                    sx.check(line == y, "whole")
                    sx.check(number == {"debug": 10}.get(level, level), "at its level")
                    sx.check(not args and extra == {"external": True}, "as it is")
        sx.check(opened[1:] == ["closed"], "closed at the end")

    try:
        loop_run(main())
    finally:
        module.aiofiles, module.normalize = old


@case("P36", bounds="2 files with up to 2 new lines each, at any of 2 times")
def several(sx):
    """Lines of one file don't depend on those of another."""
    logger = Recorder()
    capture = Capture(logger)
    files = [File(""), File("")]
    want = [[], []]

    async def main():
        capture.streams = []
        capture.partial = {}
        capture.streams = [(10 * (i + 1), x) for i, x in enumerate(files)]
        for turn in range(2):
            for i, file in enumerate(files):
                text = sx.pick("t%d%d" % (turn, i), ["", "a", "b\n", "\nc\n", "d\ne"])
                file.text = file.text + text
                want[i] = lines(sx, file.text)
            await capture.dispatch_log_capture()
            for i in range(2):
                got = [x[1] for x in logger.got if x[0] == 10 * (i + 1)]
                sx.check(got == want[i], "its lines")

    loop_run(main())


@case("P36", bounds="every text of 2 characters, to up to 3 handlers of 2 kinds")
def forwarded(sx):
    """Text that isn't safe to log is only kept for browsers."""
    kinds = [sx.pick("kind%d" % i, ["list", "other"]) for i in range(sx.size("n", 0, 3))]
    safe = sx.pick("safe", [True, False])
    got = []

    class Listed(ListLogger):
        def __init__(self, i):
            logging.Handler.__init__(self)
            self.i = i

        def emit(self, record):
            got.append((self.i, record))

    class Another(logging.Handler):
        def __init__(self, i):
            super().__init__()
            self.i = i

        def emit(self, record):
            got.append((self.i, record))

    logger = Recorder([(Listed if x == "list" else Another)(i) for i, x in enumerate(kinds)])
    text = sx.str("text", 2, hi=127)
    level = sx.pick("level", [10, 40])
    handle_safe_log(logger, level, text, safe)
    if safe:
        sx.check(not got and len(logger.got) == 1, "logged once")
        sx.check(logger.got[0][1] == text and logger.got[0][0] == level, "as it is")
        sx.check(not logger.got[0][2], "without arguments")
        return
    sx.check(not logger.got, "not logged")
    sx.check([i for i, _ in got] == [i for i, x in enumerate(kinds) if x == "list"],
             "kept where it's kept")
    for _, record in got:
        sx.check(record.msg == text and not record.args, "as it is")
        sx.check(record.levelno == level and record.external, "what it is")


class Controlled(LoggerMixinLevelControl):
    def __init__(self, logger):
        self.logger = logger


NAMES = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


@case("P36", budget=60, bounds="an initial level and 2 changes of 6 kinds")
def levels(sx):
    """The level of a logger is always that of its channel."""
    logger = Recorder()
    env = ChannelEnvironment()
    initial = sx.pick("initial", [None, "debug", "critical"])
    Controlled(logger).setup_level_channel(
        env, **({} if initial is None else {"initial": initial}))
    env.finalize()
    processor = ChannelCommandProcessor(env, LOG)
    now = initial or "info"
    for i in range(3):
        sx.check(env.value("log_level") == now, "the level")
        sx.check(logger.levels[-1] == NAMES[now], "is that of the logger")
        if i == 2:
            break
        to = sx.pick("to%d" % i, list(NAMES) + ["other"])
        how = sx.pick("how%d" % i, ["command", "set"])
        if how == "command":
            result = processor.command("set log_level " + to)
            sx.check(bool(result) == (to != "other"), "levels that exist")
        elif to != "other":
            env.set("log_level", to)
        if to != "other":
            now = to
