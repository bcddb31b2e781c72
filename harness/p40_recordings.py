"""P40: environments that are registered globally, and recordings of them."""

import contextlib
import logging
from pathlib import Path
import shutil
import tempfile

from harness.p12_persistence import Store
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment import command
from runtimepy.channel.environment.command import GlobalEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.primitives import create
from runtimepy.primitives.field.fields import BitFields
from sx.registry import case

ASSUMPTIONS = ["JSON text carries numbers, strings, lists and maps unchanged",
               "files have what was written to them, and nothing else changes them"]
LOG = logging.getLogger("p40")
LOG.disabled = True


class Clock:
    def __init__(self):
        self.now = 1

    def __call__(self):
        return self.now


class File:
    """A binary file."""

    def __init__(self, files, name, mode):
        self.files, self.name, self.at = files, name, 0
        if "w" in mode:
            files[name] = b""
        elif "a" in mode:
            files.setdefault(name, b"")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        pass

    flush = close

    def write(self, data):
        self.files[self.name] = self.files[self.name] + bytes(data)
        return len(data)

    def read(self, size=-1):
        data = self.files[self.name][self.at:]
        self.at += len(data)
        return data


class Root(type(Path())):
    """A path to a directory whose binary files may have symbolic content."""

    files = None

    def open(self, mode="r", *args, **kwargs):
        if self.files is None or "b" not in mode or not self.name.endswith(".bin"):
            return super().open(mode, *args, **kwargs)
        self.parent.stat()
        return File(self.files, str(self), mode)


@contextlib.contextmanager
def scratch(sx):
    """A directory that's removed again, and what's written in there."""
    path = tempfile.mkdtemp(prefix="p40-")
    store = Store(sx)
    Root.files = {} if sx.symbolic else None
    try:
        yield Root(path)
    finally:
        store.close()
        Root.files = None
        shutil.rmtree(path)


def build(clock):
    """An environment with channels and bit fields."""
    env = ChannelEnvironment()
    for name, kind in (("a", "uint8"), ("b", "int16"), ("ab", "bool")):
        env.channel(name, type(create(kind))(time_source=clock))
    fields = BitFields.new("uint8")
    fields.flag("flag")
    fields.field("af", 7)
    fields.raw.time_source = clock
    env.fields.add(fields)
    env.finalize()
    return env


def processor(env):
    made = ChannelCommandProcessor(env, LOG)
    return made


def state(env):
    return [env.channels[x].raw.value for x in ("a", "b", "ab")] + [
        env.fields["flag"].raw.value]


def change(sx, env, what, label):
    """Change something, and return the names of what may have events of it."""
    if what == "w":
        env.fields["flag"].raw.value = sx.int(label, 0, 255)
        return ["flag", "af"]
    if what == "ab":
        env.channels[what].raw.value = sx.bool(label)
    else:
        env.channels[what].raw.value = sx.int(label, *{
            "a": (0, 255), "b": (-2 ** 15, 2 ** 15 - 1)}[what])
    return [what]


EVERY = [("one", "a"), ("one", "b"), ("one", "ab"), ("one", "w"), ("two", "a")]


@case("P40", [{"n": 2, "envs": "."}, {"n": 2, "envs": "one"}],
      [{"n": 3, "envs": "."}, {"n": 3, "envs": "one"}], budget=120,
      bounds="2 (3) changes of 3 channels and a word of bit fields in 2 environments to any "
      "value, 5 selections of channels and 2 of environments, and a program that ends or "
      "fails")
def recorded(sx, n, envs):
    """A recording has every change of what was chosen, and can be loaded."""
    clock = Clock()
    command.default_time_ns = clock
    pattern, exact = sx.pick("pattern", [(".", False), ("a", False), ("a", True),
                                         ("flag", True), ("nothing", True)])
    fails = sx.pick("fails", [False, True])
    chosen = {name: [x for x in ("a", "b", "ab", "flag", "af")
                     if (x == pattern if exact else pattern == "." or pattern in x)]
              for name in ("one", "two") if envs in (".", name)}
    with scratch(sx) as root:
        source = GlobalEnvironment(root=root)
        source.logger = LOG
        every = {name: build(clock) for name in ("one", "two")}
        for name, env in every.items():
            source.register(name, processor(env))
        every["one"].channels["b"].raw.value = sx.int("before", -2 ** 15, 2 ** 15 - 1)
        first = {name: state(env) for name, env in every.items()}
        want = {name: [] for name in every}
        for name in chosen:
            for x in chosen[name]:
                env = every[name]
                raw = env.fields[x].raw if env.fields.has_field(x) else env.channels[x].raw
                want[name].append((x, 0, raw.value, raw.last_updated_ns))
        try:
            with source.event_telemetry_output(
                    env_pattern=envs, channel_pattern=pattern, channel_exact=exact,
                    text_log=False) as names:
                sx.check({k: sorted(v) for k, v in names}
                         == {k: sorted(v) for k, v in chosen.items()}, "what was chosen")
                for i in range(n):
                    clock.now = 10 + i
                    name, what = sx.pick("what%d" % i, EVERY)
                    old = state(every[name])
                    may = change(sx, every[name], what, "value%d" % i)
                    if any(sx.concrete(x != y) for x, y in zip(old, state(every[name]))):
                        for x in may:
                            if x in chosen.get(name, []):
                                env = every[name]
                                raw = (env.fields[x].raw if env.fields.has_field(x)
                                       else env.channels[x].raw)
                                want[name].append((x, i + 1, raw.value, 10 + i))
                if fails:
                    raise KeyError("program")
        except KeyError:
            sx.check(fails, "it only fails by itself")
        final = {name: state(env) for name, env in every.items()}
        meta = command.ARBITER.decode(
            GlobalEnvironment.meta_path(root), require_success=True).data
        sx.check(meta["start_ns"] == 1 and meta["end_ns"] == clock.now, "and when that was")
        change(sx, every["one"], "a", "after")

        back = GlobalEnvironment.from_root(root)
        back.logger = LOG
        sx.check(sorted(back) == sorted(chosen), "the environments that were recorded")
        for name in chosen:
            env = back[name].env
            sx.check(sx.all(*[x == y for x, y in zip(state(env), first[name])]),
                     "are as they were at first")
            for again in (False, True):
                events = list(back.read_event_stream(name))
                sx.check(len(events) == len(want[name]), "every change is there, once")
                initial = len(chosen[name])
                sx.check(sorted(x.name for x in events[:initial]) == sorted(chosen[name]),
                         "initial values come first")
                if initial:
                    by = {x.name: x for x in events[:initial]}
                    for x, _, value, at in want[name][:initial]:
                        sx.check(by[x].value == value, "with what they were")
                        sx.check(by[x].timestamp == at, "and since when")
                at = initial
                while at < len(events):
                    # Fields of one word change at once.
                    step = [x for x in want[name][initial:] if x[1] == want[name][at][1]]
                    got = events[at:at + len(step)]
                    sx.check(sorted(x.name for x in got) == sorted(x[0] for x in step),
                             "in order")
                    for x in got:
                        sx.check(x.value == step[0][2] and x.timestamp == step[0][3],
                                 "with their values and times")
                    at += len(step)
            for event in events:
                env.ingest(event)
            now = dict(zip(("a", "b", "ab", "flag"), state(env)))
            end = dict(zip(("a", "b", "ab", "flag"), final[name]))
            for x in chosen[name]:
                x = "flag" if x == "af" else x
                sx.check(now[x] == end[x], "and the last values are those at the end")
        sx.reach("failed" if fails else "ended")


@case("P40", bounds="a recording cut off at any byte, and one read for any number of events")
def cut(sx):
    """A recording that's cut off has the events before that, however often it's read."""
    clock = Clock()
    with scratch(sx) as root:
        source = GlobalEnvironment(root=root)
        source.logger = LOG
        env = build(clock)
        source.register("one", processor(env))
        value = sx.int("value", 1, 255)
        with source.file_event_stream("one", pattern="a", exact=True) as names:
            sx.check(names == ["a"], "as chosen")
            clock.now = 5
            env.channels["a"].raw.value = value
        path = root.joinpath("one", command.EVENT_OUT)
        with path.open("rb") as stream:
            data = stream.read()
        sx.check(len(data) % 2 == 0, "two events")
        keep = sx.size("keep", 0, len(data))
        with path.open("wb") as stream:
            stream.write(data[:keep])
        taken = sx.size("taken", 0, 2)
        reader = source.read_event_stream("one")
        for _ in range(taken):
            next(reader, None)
        reader.close()
        for _ in range(2):
            events = list(source.read_event_stream("one"))
            want = [(0, 0), (value, 5)][:keep // (len(data) // 2)]
            sx.check(len(events) == len(want), "those that are complete")
            for event, (x, at) in zip(events, want):
                sx.check(event.name == "a" and event.value == x, "as they were")
        sx.reach("read")


@case("P40", bounds="2 recordings one after the other, with one value of every kind changed "
      "in each, to 2 places of 2 environments of similar names that are chosen exactly or not")
def repeated(sx):
    """A recording replaces an older one, and has nothing of that."""
    clock = Clock()
    command.default_time_ns = clock
    exact = sx.pick("exact", [False, True])
    path = sx.pick("path", [command.EVENT_OUT, "other.bin"])
    values = [sx.int("value%d" % i, 1, 255) for i in range(2)]
    chosen = ["one"] if exact else ["one", "one2"]
    with scratch(sx) as root:
        source = GlobalEnvironment(root=root)
        source.logger = LOG
        every = {name: build(clock) for name in ("one", "one2")}
        for name, env in every.items():
            source.register(name, processor(env))
        for i, value in enumerate(values):
            first = every["one"].channels["a"].raw.value
            with source.event_telemetry_output(
                    env_pattern="one", env_exact=exact, channel_pattern="a",
                    channel_exact=True, text_log=False, event_path=path) as names:
                sx.check([x for x, _ in names] == chosen, "as chosen")
                clock.now = 10 + i
                every["one"].channels["a"].raw.value = value
            back = GlobalEnvironment.from_root(root)
            back.logger = LOG
            sx.check(sorted(back) == chosen, "only those")
            sx.check(back["one"].env.value("a") == first, "as they were at first")
            for name in chosen:
                where = root.joinpath(name)
                sx.check((root.files is not None and str(where.joinpath(path)) in root.files)
                         or where.joinpath(path).is_file(), "where asked")
                got = [x.value for x in back.read_event_stream(name, path=path)]
                want = [first] if name == "one" else [0]
                if name == "one" and bool(value != first):
                    want.append(value)
                sx.check(len(got) == len(want), "nothing else")
                for x, y in zip(got, want):
                    sx.check(x == y, "as it was")
        sx.reach("done")


@case("P40", bounds="3 registrations of 2 environments under 2 names, and clearing them")
def registered(sx):
    """A name stands for one environment until all are cleared."""
    envs = [processor(build(Clock())) for _ in range(2)]
    known = GlobalEnvironment()
    known.logger = LOG
    want = {}
    for i in range(3):
        what = sx.pick("what%d" % i, ["a0", "a1", "b0", "b1", "clear"])
        if what == "clear":
            known.clear()
            want = {}
            continue
        name, env = what[0], envs[int(what[1])]
        try:
            known.register(name, env)
            sx.check(want.setdefault(name, env) is env, "a name that's taken is refused")
        except AssertionError:
            sx.check(want.get(name, env) is not env, "only one that's taken by another")
        sx.check(dict(known) == want, "and nothing else changes")
        sx.check(all(known[x] is want[x] for x in want), "by name")
    command.GLOBAL.clear()
    command.register_env("x", envs[0])
    value = sx.int("value", 0, 255)
    envs[0].env["a"] = value
    data = command.env_json_data()
    sx.check(list(data) == ["x"] and data["x"]()["values"]["a"] == value, "with their values")
    command.clear_env()
    sx.check(not command.ENVIRONMENTS, "none are left")


class Counting(logging.Handler):
    """Counts what it handles."""


@case("P40", bounds="a program that ends or fails, with or without a text log")
def logs(sx):
    """What's logged meanwhile is in the text log, if asked for."""
    fails, wanted = sx.pick("fails", [False, True]), sx.pick("text", [False, True])
    root_logger = logging.getLogger()
    before = list(root_logger.handlers)
    some = logging.getLogger("p40-logs")
    some.setLevel(logging.INFO)
    some.disabled = False
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    path = tempfile.mkdtemp(prefix="p40-")
    try:
        envs = GlobalEnvironment(root=Path(path))
        some.info("before")
        try:
            with envs.event_telemetry_output(text_log=wanted):
                some.info("during %d", 7)
                sx.check(len(root_logger.handlers) == len(before) + int(wanted), "as asked")
                if fails:
                    raise KeyError("program")
        except KeyError:
            pass
        some.info("after")
        sx.check(root_logger.handlers == before, "nothing is left")
        log = Path(path, "log.txt")
        sx.check(log.is_file() == wanted, "only if asked for")
        if wanted:
            text = log.read_text()
            sx.check("during 7" in text and "before" not in text and "after" not in text,
                     "what was logged meanwhile")
    finally:
        logging.disable(disabled)
        shutil.rmtree(path)
