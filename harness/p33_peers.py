"""P33: peer programs, with their host and the pipes between them."""

import asyncio
from contextlib import contextmanager
from copy import deepcopy
import logging
import pathlib
import types

from harness.vloop import VLoop
import runtimepy.message
from runtimepy.channel.environment.command import ENVIRONMENTS
import runtimepy.metrics.channel as channel_metrics
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.primitives import Int16, Uint8
import runtimepy.subprocess
from runtimepy.subprocess import program
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram
from runtimepy.subprocess.protocol import RuntimepySubprocessProtocol
from sx.registry import case

ASSUMPTIONS = ["JSON text round-trips (it is replaced by a store of values)",
               "pipes keep order; host and program share a process and a clock"]
LOG = logging.getLogger("p33")
LOG.disabled = True


class Store:
    """JSON texts by number, so that what they carry can be symbolic."""

    def __init__(self):
        self.items = []

    def dumps(self, data, **_):
        self.items.append(jsonable(data))
        return "%d" % (len(self.items) - 1)

    def loads(self, text):
        return deepcopy(self.items[int(text)])


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, pathlib.PurePath) or type(x) is object:
        raise TypeError("not JSON serializable")
    return x


class Struct(RuntimeStruct):
    """A struct of two channels."""

    log_level_channel = False
    initial = (0, 0)

    def init_env(self):
        a, b = self.initial if self.name.startswith("q") else (3, -3)
        self.a, self.b = Uint8(value=a), Int16(value=b)
        self.env.channel("a", self.a, commandable=True)
        self.env.channel("b", self.b)
        self.polls = 0

    def poll(self):
        self.polls += 1


class Peer(RuntimepyPeer):
    """The host's end."""

    struct_type = Struct
    poll_period_s = 1

    def _finalize_struct(self):
        super()._finalize_struct()
        self.handled = []

    async def process_json(self, data, addr=None):
        if "note" in data:
            self.handled.append(data.pop("note")["n"])
        return await super().process_json(data, addr)


class Stdin:
    """What the program reads."""

    def __init__(self):
        self.data, self.eof = b"", False

    def read(self, n):
        if not self.data:
            return b"" if self.eof else None
        result, self.data = self.data[:n], self.data[n:]
        return result

    def fileno(self):
        return 0


class Pipes:
    """The transport of the protocol, and the pipes of the program."""

    def __init__(self, loop, split=None, delay=0):
        self.loop, self.split, self.delay = loop, split, delay
        self.program, self.sent, self.code = Stdin(), 0, None
        self.exited, self.last, self.closed = False, {}, 0
        self.stdin = types.SimpleNamespace(write=self.write, writelines=self.writelines,
                                           write_eof=self.write_eof,
                                           can_write_eof=lambda: True)
        self.protocol = RuntimepySubprocessProtocol()
        self.protocol.connection_made(self)
        self.protocol.stdout_queue = asyncio.Queue()
        self.protocol.stderr_queue = asyncio.Queue()

    def get_extra_info(self, name):
        return None

    def get_pid(self):
        return 1

    def get_returncode(self):
        return self.code

    def get_pipe_transport(self, fd):
        return self.stdin if fd == 0 else None

    def close(self):
        self.closed += 1

    def write(self, data):
        self.program.data = self.program.data + data

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def write_eof(self):
        self.program.eof = True

    def output(self, fd):
        """A stream of the program."""

        waiting = []

        def deliver():
            data = waiting[0]
            for part in waiting[1:]:
                data = data + part
            waiting.clear()
            self.protocol.pipe_data_received(fd, data)

        def write(data):
            if self.merge:
                if not waiting:
                    self.loop.call_soon(deliver)
                if len(data):
                    waiting.append(data)
                return len(data)
            i = self.split
            parts = [data]
            if i is not None and fd in self.splits:
                i = self.splits[fd] if self.splits[fd] < len(data) else len(data)
                parts = [data[:i], data[i:]]
            for part in parts:
                if len(part):
                    self.protocol.pipe_data_received(fd, part)
            return len(data)

        def writelines(lines):
            for line in lines:
                write(line)

        return types.SimpleNamespace(write=write, writelines=writelines,
                                     flush=lambda: None)

    splits, merge = {}, False


@contextmanager
def world(sx):
    """Everything that is shared by processes, replaced."""
    mods = [(runtimepy.message, "dumps"), (runtimepy.message, "loads"),
            (channel_metrics, "_metrics_time_ns"), (program, "sys"), (program, "os"),
            (program, "PROGRAM")]
    old = [(m, n, getattr(m, n)) for m, n in mods]
    if sx.symbolic:
        store = Store()
        runtimepy.message.dumps, runtimepy.message.loads = store.dumps, store.loads
    channel_metrics._metrics_time_ns = lambda: 0
    program.os = types.SimpleNamespace()
    envs = dict(ENVIRONMENTS.data)
    ENVIRONMENTS.data.clear()
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)
        ENVIRONMENTS.data.clear()
        ENVIRONMENTS.data.update(envs)
        root.handlers[:] = handlers
        root.setLevel(level)


def make(pipes, script):
    """A program class that runs a script."""

    class Program(PeerProgram):
        struct_type = Struct
        poll_period_s = 1
        _singleton = None
        cleanups = 0

        def struct_pre_finalize(self):
            pass

        def poll_psutil(self, weight):
            pass

        async def main(self, argv):
            await script(self, argv)

        async def cleanup(self):
            type(self).cleanups += 1

    program.sys = types.SimpleNamespace(
        stdin=types.SimpleNamespace(buffer=pipes.program),
        stdout=types.SimpleNamespace(buffer=pipes.output(1)),
        stderr=types.SimpleNamespace(buffer=pipes.output(2)))
    return Program


def run(sx, script, body, splits=None, merge=False):
    """Run a program's script and the body of its host together."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    with world(sx):

        async def main():
            pipes = Pipes(loop)
            if splits:
                pipes.split, pipes.splits = True, splits
            pipes.merge = merge
            cls = make(pipes, script)
            error = []

            async def child():
                try:
                    async with cls.running("q", {"who": "q"}, ["argv"]) as (io, m, peer):
                        await m
                        await io
                except KeyError as exc:
                    error.append(exc)
                pipes.exited = True
                pipes.code = 0
                pipes.protocol.process_exited()

            task = asyncio.create_task(child())
            host = Peer(pipes.protocol, "p", {"who": "p"})
            async with host._context() as host:
                await body(host, cls, pipes)
            await runtimepy.subprocess.close_protocol(
                pipes.protocol, stdout=pipes.protocol.stdout_queue,
                stderr=pipes.protocol.stderr_queue, logger=LOG)
            await task
            listens = cls.singleton().list_handler
            sx.check(not any(x is listens for x in logging.getLogger().handlers),
                     "logs aren't kept for a program that ended")
            for _ in range(4):
                await asyncio.sleep(0)
            sx.check(len(asyncio.all_tasks()) == 1, "nothing keeps running")
            return host, cls, pipes, error

        try:
            return loop.run_until_complete(main())
        finally:
            loop.cancel_all()
            asyncio.set_event_loop(None)


@case("P33", [{"n": 2, "fd": 1, "most": 6}, {"n": 2, "fd": 2, "most": 14},
              {"n": 2, "fd": 2, "most": 14, "whole": True}],
      thorough=[{"n": 3, "fd": 1, "most": 6}, {"n": 3, "fd": 2, "most": 28}], budget=150,
      bounds="2 (3) changes of either channel to every value, with what the program "
      "writes split anywhere, or all of it read at once")
def telemetry(sx, n, fd, most, whole=False):
    """The host has the environment of its peer, and every change after that."""
    start = [sx.int("a", 0, 255), sx.int("b", -32768, 32767)]
    together = sx.bool("together") if not whole else True
    changes = [(("a", sx.int("v%d" % i, 0, 255)) if sx.bool("first%d" % i) else
                ("b", sx.int("w%d" % i, -32768, 32767))) for i in range(n)]
    seen, ready = [], []

    async def script(peer, argv):
        sx.check(argv == ["argv"], "arguments")
        while not ready:
            await asyncio.sleep(1)
        if together:
            # Changes are streamed some time after environments are exchanged.
            await asyncio.sleep(5)
        for i, (name, value) in enumerate(changes):
            peer.struct.env.set(name, value)
            if not together:
                await asyncio.sleep(1)
        await asyncio.sleep(1)

    async def body(host, cls, pipes):
        peer = cls.singleton()
        sx.check(host.peer is not None and peer.peer is not None, "exchanged")
        for mine, theirs in ((host.peer.env, peer.struct.env),
                             (peer.peer.env, host.struct.env)):
            sx.check(list(mine.names) == list(theirs.names), "names")
            sx.check(mine.value("a") == theirs.value("a"), "values")
            sx.check(mine.value("b") == theirs.value("b"), "values")
        for name in "ab":
            chan = host.peer.env[name][0]
            chan.raw.register_callback(
                lambda old, new, name=name: seen.append((name, old, new)))
        ready.append(1)
        await asyncio.sleep(20)
        sx.check(ENVIRONMENTS.data["p.peer"] is host.peer, "registered")
        sx.check(ENVIRONMENTS.data["p.host"] is host.struct.command, "registered")

    Struct.initial = start
    splits = None if whole else {fd: sx.int("split", 0, most)}
    host, cls, pipes, error = run(sx, script, body, splits, whole)
    now = dict(zip("ab", start))
    want = []
    for name, value in changes:
        if now[name] != value:
            want.append((name, now[name], value))
            now[name] = value
    sx.check(len(seen) == len(want), "every change once")
    for x, y in zip(seen, want):
        sx.check(x[0] == y[0], "in order")
        sx.check(x[1] == y[1], "from")
        sx.check(x[2] == y[2], "to")
    sx.check(error == [] and cls.cleanups == 1, "ended")


COMMANDS = ["set a 7", "set a 0", "toggle a", "set b 5", "set -f b 5", "set c 1", "set a x", "custom poll 2",
            "custom note 1 2 3",
            "bogus"]


@case("P33", budget=150, bounds="2 of 10 commands, good and bad, for the peer")
def commands(sx):
    """Commands for the peer are done there, in order, if they make sense."""
    texts = [sx.pick("c%d" % i, COMMANDS) for i in range(2)]
    Struct.initial = (sx.int("a", 1, 255), sx.int("b", -9, 9))
    ready, log, results, notes = [], [], [], []

    async def script(peer, argv):
        for name in "ab":
            peer.struct.env[name][0].raw.register_callback(
                lambda old, new, name=name: log.append((name, new)))

        async def note(args, channel):
            notes.append(args.extra)

        peer.command.register_custom_commands(note)
        await peer.got_eof.wait()

    async def body(host, cls, pipes):
        await asyncio.sleep(5)
        host.peer.logger = LOG
        cls.singleton().command.logger = LOG
        for text in texts:
            results.append(bool(host.peer.command(text)))
        await asyncio.sleep(60)

    host, cls, pipes, error = run(sx, script, body)
    now, want, polls = list(Struct.initial), [], 0
    for text, result in zip(texts, results):
        sx.check(result == (text != "bogus"), "accepted here")
        polls += 2 if text.startswith("custom poll") else 0
        if text in ("set a 7", "set a 0"):
            value, i = int(text[-1]), 0
        elif text == "set -f b 5":
            value, i = 5, 1
        else:
            continue
        if now[i] != value:
            want.append(("ab"[i], value))
            now[i] = value
    sx.check(cls.singleton().struct.polls == polls, "custom commands")
    sx.check(notes == [["1", "2", "3"] for x in texts if "note" in x],
             "with their arguments")
    sx.check(host.struct.polls == 0, "and not here")
    sx.check(len(log) == len(want), "as many")
    for x, y in zip(log, want):
        sx.check(x[0] == y[0] and x[1] == y[1], "in order")
    sx.check(error == [], "no error")


class Got:
    """A logger that keeps everything."""

    def __init__(self):
        self.got = []

    def log(self, level, msg, *args):
        self.got.append((level, str(msg) % args if args else str(msg)))

    def info(self, msg, *args):
        pass


ARGS = [(), (5,), ("text",), (pathlib.PurePosixPath("/a"),), ({"x": 1},)]


@case("P33", budget=100, bounds="2 log records of 3 levels with arguments of 5 types, or "
      "that are not text or don't fit")
def logs(sx):
    """What a program logs arrives at the log of its host."""
    records, handler = [], Got()
    for i in range(2):
        level = sx.pick("level%d" % i, [logging.INFO, logging.ERROR])
        kind = sx.pick("kind%d" % i, ["plain", "args", "object", "misfit", "percent"])
        if kind == "args":
            args = sx.pick("args%d" % i, ARGS)
            records.append((level, "one %s" if args else "one", args))
        elif kind == "object":
            records.append((level, KeyError("x"), ()))
        elif kind == "misfit":
            records.append((level, "none", (1,)))
        elif kind == "percent":
            records.append((level, "100%s", ()))
        else:
            records.append((level, "plain", ()))
    handled = []

    async def script(peer, argv):
        await asyncio.sleep(3)
        for level, msg, args in records:
            peer.list_handler.handle(logging.LogRecord("p33", level, "p33.py", 1, msg,
                                                       args, None))
        await peer.got_eof.wait()

    async def body(host, cls, pipes):
        await asyncio.sleep(2)
        host.peer.logger = handler
        await asyncio.sleep(40)
        for i in range(2):
            cls.singleton().send_json({"note": {"n": i}})
            await asyncio.sleep(2)
        handled.extend(host.handled)

    host, cls, pipes, error = run(sx, script, body)
    sx.check(error == [] and handled == [0, 1], "goes on")
    want = []
    for level, msg, args in records:
        if args and args[0] == 1:
            text = "none"
        elif args and isinstance(args[0], dict):
            text = "one {'x': 1}"
        else:
            text = str(msg) % args if args else str(msg)
        want.append((level, text))
    sx.check(handler.got == want, "every record")


@case("P33", budget=100, bounds="a main task that ends, fails or waits for the end of "
      "input, which comes at every time of the first 20, and a message that can't be "
      "handled or not")
def ends(sx):
    """A program that ends, however it does, is cleaned up."""
    what = sx.pick("what", ["ends", "fails", "waits"])
    at = sx.int("at", 6, 20)
    bad, last = sx.bool("bad"), sx.int("last", 0, 255)
    state = []

    async def script(peer, argv):
        if what == "ends":
            await asyncio.sleep(2)
        elif what == "fails":
            await asyncio.sleep(2)
            peer.struct.env.set("a", last)
            raise KeyError("main")
        else:
            await peer.got_eof.wait()
        state.append("main")

    async def body(host, cls, pipes):
        peer = cls.singleton()
        if bad:

            async def handler(outbox, inbox):
                raise KeyError("handler")

            peer.basic_handler("bad", handler)
            await asyncio.sleep(5)
            host.send_json({"bad": {"x": 1}})
        await asyncio.sleep(at)
        state.append(pipes.exited)
        if what == "fails" and not bad:
            sx.check(host.peer.env.value("a") == last, "its last change isn't lost")

    host, cls, pipes, error = run(sx, script, body)
    sx.check(cls.cleanups == 1, "cleaned up once")
    sx.check(pipes.exited, "ended")
    sx.check(("main" in state) == (what != "fails"), "main task")
    sx.check((error != []) == (what == "fails" or bad), "error")
    sx.check((False in state) == (what != "fails" and not bad), "runs until then")


@case("P33", budget=60, bounds="every combination of queues, chunks of every 3 bytes on "
      "both streams, a process that ends after every time of up to 9 or only if killed")
def processes(sx):
    """Output goes to its queue, and a process is given time to end, then ended."""
    loop = VLoop()
    with world(sx):
        pipes = Pipes(loop)
    proto = pipes.protocol
    has = {1: sx.bool("stdout"), 2: sx.bool("stderr")}
    out = {1: asyncio.Queue() if has[1] else None, 2: asyncio.Queue() if has[2] else None}
    proto.stdout_queue, proto.stderr_queue = out[1], out[2]
    want = {1: [], 2: []}
    for i in range(2):
        fd = 1 if sx.bool("fd%d" % i) else 2
        data = sx.bytes("data%d" % i, 3)
        proto.pipe_data_received(fd, data)
        want[fd].append(data)
    for fd in (1, 2):
        if has[fd]:
            got = []
            while not out[fd].empty():
                got.append(out[fd].get_nowait())
            sx.check(len(got) == len(want[fd]), "chunks")
            for x, y in zip(got, want[fd]):
                sx.check(x == y, "in order")
        elif fd == 1:
            try:
                proto.stdout
                sx.fail("no queue")
            except AssertionError:
                pass
    after = sx.int("after", 0, 9)
    stubborn = sx.bool("stubborn")
    state = {}

    def close():
        pipes.closed += 1
        state.setdefault("closed", loop.time())
        if stubborn and pipes.closed == 1:
            loop.call_later(1, end)

    def end():
        pipes.code = 0
        proto.process_exited()

    def eof():
        pipes.program.eof = True
        if not stubborn:
            loop.call_later(after, end)

    pipes.close, pipes.stdin.write_eof = close, eof
    early = sx.bool("early")
    if early:
        end()

    async def main():
        await runtimepy.subprocess.close_protocol(proto, poll_rate=4, stdout=out[1],
                                                  stderr=out[2], logger=LOG)
        return loop.time()

    try:
        took = loop.run_until_complete(main())
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)
    sx.check(proto.exited.is_set() and proto.elapsed_time >= 0, "exited")
    if early:
        sx.check(took == 0 and not pipes.program.eof and pipes.closed == 0, "at once")
        return
    sx.check(pipes.program.eof, "told to end")
    if stubborn:
        sx.check(state["closed"] == 4, "killed in the end")
    elif after != 4 and after != 8:
        sx.check(took == after, "as soon as it ended")
        if after < 4:
            sx.check("closed" not in state or state["closed"] >= after, "not killed")
        else:
            sx.check(state["closed"] == 4, "killed in the end")
    for fd in (1, 2):
        if has[fd]:
            sx.check(out[fd].empty(), "drained")


@case("P33", budget=60, bounds="a process of a program or of a shell, with every choice "
      "of queues, whose user ends, fails or is cancelled")
def spawned(sx):
    """A process ends with its user, however that ends."""
    loop = VLoop()
    kind, end = sx.pick("kind", ["exec", "shell"]), sx.pick("end", ["ok", "fail", "cancel"])
    out = [asyncio.Queue() if sx.bool(x) else None for x in ("stdout", "stderr")]
    with world(sx):
        pipes = Pipes(loop)
    started = []

    async def start(factory, *args, **kwargs):
        protocol = factory()
        protocol.connection_made(pipes)
        pipes.protocol = protocol
        started.append((args, kwargs))
        return pipes, protocol

    def eof():
        pipes.program.eof = True
        pipes.code = 0
        loop.call_soon(pipes.protocol.process_exited)

    pipes.stdin.write_eof = eof
    loop.subprocess_exec = loop.subprocess_shell = start

    async def user():
        kwargs = {"stdout": out[0], "stderr": out[1], "logger": LOG}
        if kind == "exec":
            context = runtimepy.subprocess.spawn_exec("a", "b", "c d", cwd="/", **kwargs)
        else:
            context = runtimepy.subprocess.spawn_shell("a b", cwd="/", **kwargs)
        async with context as protocol:
            sx.check(protocol.stdout_queue is out[0], "output goes to its queue")
            sx.check(protocol.stderr_queue is out[1], "errors go to their queue")
            sx.check(not pipes.program.eof, "runs")
            await asyncio.sleep(1)
            if end == "fail":
                raise KeyError("user")
            if end == "cancel":
                await asyncio.sleep(100)

    async def main():
        task = asyncio.create_task(user())
        await asyncio.sleep(5)
        task.cancel()
        await asyncio.wait([task])
        return task

    asyncio.set_event_loop(loop)
    try:
        task = loop.run_until_complete(main())
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)
    if end == "fail":
        sx.check(isinstance(task.exception(), KeyError), "errors are those of the user")
    else:
        sx.check(task.cancelled() == (end == "cancel"), "as the user ended")
    sx.check(pipes.program.eof and pipes.protocol.exited.is_set(), "ended")
    sx.check(started == [(("a", "b", "c d") if kind == "exec" else ("a b",),
                          {"cwd": "/"})], "started once")


@case("P33", budget=60, bounds="a configuration shared by the host or not, up to twice, "
      "with every value, and a command when it ends or not")
def configs(sx):
    """Programs have the configuration they're given, and the first one shared."""
    value, times = sx.int("value", 0, 9), sx.pick("times", [0, 1, 2])
    state, late = [], sx.bool("late")

    async def script(peer, argv):
        await peer.got_eof.wait()

    async def body(host, cls, pipes):
        await asyncio.sleep(3)
        for i in range(times):
            await host.share_config({"config": {"x": value, "i": i}})
        peer = cls.singleton()
        state.append((peer.peer_config, peer.peer_config_event.is_set()))
        sx.check(peer.struct.config == {"who": "q"}, "its own")
        sx.check(host.struct.config == {"who": "p"}, "the host's")
        if late:
            # Something is still to be done when the host ends.
            host.peer.command("set a 7")
            await asyncio.sleep(1)
            await asyncio.sleep(1)

    import runtimepy.subprocess.interface as interface

    old, interface.dumps = interface.dumps, lambda x, **_: "text"
    try:
        host, cls, pipes, error = run(sx, script, body)
    finally:
        interface.dumps = old
    sx.check(error == [], "no error")
    config, event = state[0]
    sx.check(event == (times > 0), "event")
    if times:
        sx.check(set(config) == {"x", "i"} and config["i"] == 0, "the first one")
        sx.check(config["x"] == value, "as it was shared")
    else:
        sx.check(config is None, "none")
