"""P27: applications of the connection arbiter, from connections to results."""

import asyncio
import logging
import types

from harness.p23_connections import Conn, quiet
from harness.vloop import VLoop
import runtimepy.metrics.task as metrics
from runtimepy.net.arbiter.base import BaseConnectionArbiter
from runtimepy.channel.environment.command import ENVIRONMENTS
from runtimepy.net.arbiter.info import AppInfo, RuntimeStruct
from runtimepy.net.arbiter.result import ResultState
from runtimepy.net.arbiter.task import ArbiterTask
from runtimepy.net.connection import EchoConnection, NullConnection
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.manager import ConnectionManager
from sx.registry import case

ASSUMPTIONS = ["times are whole numbers; scripted connections"]
LOG = logging.getLogger("p27")
LOG.disabled = True


class Arbiter(BaseConnectionArbiter):
    """Arbiter with a housekeeping task that iterates seldom."""

    def __init__(self, **kwargs):
        super().__init__(logger=LOG, **kwargs)
        self.manager.logger = LOG
        for task in self.task_manager.tasks:
            task.logger = LOG
            task.set_period(1)


def finish(coro, loop=None):
    loop = loop or VLoop()
    old = metrics.metrics_time_ns
    metrics.metrics_time_ns = lambda: 0
    try:
        return loop.run_until_complete(coro)
    finally:
        metrics.metrics_time_ns = old
        loop.cancel_all()
        asyncio.set_event_loop(None)


class Odd(Exception):
    """An error of an application."""


class Method:
    """An application method that is scripted."""

    def __init__(self, name, log, code, took=0):
        self.__name__, self.log, self.code, self.took = name, log, code, took

    async def __call__(self, app):
        loop = asyncio.get_running_loop()
        self.log.append((self.__name__, loop.time(), app))
        await asyncio.sleep(self.took)
        if self.code == "raise":
            raise Odd(self.__name__)
        return self.code


class Tick(ArbiterTask):
    count = 0

    async def init(self, app):
        await super().init(app)
        if self.early:
            self.env.finalize()

    early = False

    async def dispatch(self):
        self.count += 1
        return True


def outcome(sx, name, raises=True):
    if raises and sx.bool(name + "_raises"):
        return "raise"
    return sx.int(name, -2, 2)


class Told(logging.Logger):
    """A logger that keeps what it's told."""

    def __init__(self, told):
        super().__init__("p27.told")
        self.told = told

    def isEnabledFor(self, level):
        return True

    def _log(self, level, msg, args, **_):
        self.told.append(msg % args)


@case("P27", [{"shape": [1, 2, 1]}, {"shape": [0, 2, 2]}, {"shape": [0, 3]}], budget=150,
      bounds="up to 3 stages of up to 3 methods of up to 2 lengths, each returning "
      "anything between -2 and 2 or raising")
def stages(sx, shape):
    """Stages run in order while they pass, and the result says whether all did."""
    log, codes, names = [], [], []
    took = sx.pick("took", [0, 2])
    plan = []
    for i, n in enumerate(shape):
        row = [outcome(sx, "r%d%d" % (i, j), raises=j == 0) for j in range(n)]
        codes.append(row)
        names.append(["m%d%d" % (i, j) for j in range(n)])
        plan.append([Method(a, log, c, took if j else 0)
                     for j, (a, c) in enumerate(zip(names[i], row))])
    arbiter = Arbiter()
    arbiter._inits = plan[:1] if shape[0] else []
    arbiter._apps = plan[1:]
    task = Tick("tick", period_s=1)
    task.logger, task.early = LOG, took == 2
    arbiter.task_manager.register(task)
    conn = quiet(Conn(LOG))
    sx.check(arbiter.register_connection(conn, "conn"), "registered")
    loop = VLoop()
    code = finish(arbiter.app(), loop)

    want, passed, now, states = [], True, 0, []
    for i, row in enumerate(codes):
        if not row:
            continue
        if not passed:
            if not (shape[0] and i > 0 and any(c != 0 for c in codes[0])):
                states.append([ResultState.NOT_RUN] * len(row))
            continue
        want += names[i]
        bad = any(c == "raise" for c in row)
        states.append([ResultState.EXCEPTION if bad else
                       ResultState.PASS if c == 0 else ResultState.FAIL for c in row])
        passed = not bad and all(c == 0 for c in row)
    sx.check([x[0] for x in log] == want, "methods run")
    sx.check((code == 0) == passed, "result")
    if log:
        info = log[0][2]
        sx.check([[r.state for r in s] for s in info.results] == states, "states")
        sx.check([[r.method for r in s] for s in info.results]
                 == [n for n in names if n][:len(states)], "methods")
        sx.check(info.result() == passed, "overall")
        told = []
        sx.check(info.result(logger=Told(told)) == passed, "overall, told")
        for stage in info.results:
            for r in stage:
                sx.check(len([x for x in told if r.method in x and str(r.state) in x]) == 1,
                         "every method's result is told")
        sx.check(info.raised_exception == any(
            ResultState.EXCEPTION in s for s in states), "exceptions")
        for stage, row in zip(info.results, [c for c in codes if c]):
            for r, c in zip(stage, row):
                if r.state is ResultState.FAIL or r.state is ResultState.PASS:
                    sx.check(r.code == c, "codes")
        sx.check(info.connections["conn"] is conn, "connections")
    sx.check(arbiter.stop_sig.is_set(), "stopped")
    sx.check(conn.disabled and conn.closes == 1, "connection closed")
    sx.check(all(not t._enabled for t in arbiter.task_manager.tasks), "tasks stopped")
    sx.check(not arbiter.manager._running, "manager stopped")


class Slow(Conn):
    """A connection with its own script."""

    def __init__(self, script):
        self.script = script
        super().__init__(LOG)


@case("P27", [{"n": 1}, {"n": 2}], budget=150,
      bounds="up to 2 connections, deferred or not, whose initialisation of every "
      "length of up to 3 works, fails, raises or is interrupted")
def connections(sx, n):
    """The application runs if every connection works, and never waits for others."""
    log, conns, good, kinds = [], [], [], []
    arbiter = Arbiter()
    check = sx.bool("check")
    loop = VLoop()
    for i in range(n):
        delay = sx.int("delay%d" % i, 0, 3)
        what = sx.pick("what%d" % i, ["ok", "no", "raise", "lost"])
        conn = quiet(Slow({"init": (delay, "ok" if what == "lost" else what)}))
        conns.append(conn)
        kinds.append(what)
        if what == "lost":
            loop.call_later(1 if i else 2, conn.disable, "lost")
            good.append(False)
        else:
            good.append(what == "ok")

        async def later(conn=conn):
            await asyncio.sleep(1)
            return conn

        given = later() if i == 0 and sx.bool("deferred") else conn
        sx.check(arbiter.register_connection(given, "conn%d" % i), "registered")
        other = quiet(Slow({}))
        sx.check(not arbiter.register_connection(other, "conn%d" % i), "once")
    app = Method("app", log, sx.int("code", 0, 1), 5)
    code = finish(arbiter.app(app, check_connections=check), loop)
    run = len(log) == 1
    lost = all(conn.disabled for conn in conns)
    sx.check(lost, "disabled in the end")
    if run:
        sx.check(code == app.code, "its result")
        sx.check(arbiter._connections == {"conn%d" % i: c for i, c in
                                          enumerate(conns)}, "all connections")
    else:
        sx.check(code == -1, "not run")
        sx.check(check, "had to run")
    if all(good):
        sx.check(run, "all fine")
    if check and "no" in kinds:
        sx.check(not run, "not without one that didn't work")
    sx.check(all(c.closes == 1 for c in conns), "closed")
    sx.check(all(c.most == 1 for c in conns), "processed once")


class Echo(EchoConnection):
    pass


class Null(NullConnection):
    pass


@case("P27", [{"n": 3}], budget=120, bounds="3 connections of 2 kinds with names of 2 "
      "parts, and one that is not registered, searched by 3 patterns and 3 kinds")
def search(sx, n):
    """Connections are found by name, pattern and kind."""
    arbiter, made = Arbiter(), {}
    for i in range(n):
        conn = quiet(sx.pick("kind%d" % i, [Echo, Null])(LOG))
        parts = ["a", "b%d" % i] if i == 0 or sx.bool("deep%d" % i) else ["b%d" % i]
        sx.check(arbiter.register_connection(conn, *parts), "registered")
        made["_".join(parts)] = conn
        made.setdefault("names", []).append(parts)
    names = made.pop("names")
    extra = quiet(Null(LOG))
    arbiter.manager._conns = list(arbiter._connections.values()) + [extra]
    info = AppInfo(LOG, None, arbiter._connections, arbiter.manager,
                   arbiter._namespace, arbiter.stop_sig, {}, {}, arbiter, {},
                   arbiter.task_manager, [], {}, {})
    kind = sx.pick("want", [Echo, Null, Conn])
    pattern = sx.pick("pattern", [".*", "b1", "a"])
    got = list(info.search(pattern=pattern, kind=kind))
    want = []
    for parts, (full, conn) in zip(names, arbiter._connections.items()):
        found = {".*": True, "b1": "b1" in parts, "a": "a" in parts}[pattern]
        if found and isinstance(conn, kind):
            want.append(conn)
    if pattern == ".*" and kind is Null:
        want.append(extra)
    sx.check(len(got) == len(want), "as many")
    sx.check(all(any(g is w for g in got) for w in want), "the same")
    try:
        one = info.single(pattern=pattern, kind=kind)
    except AssertionError:
        one = None
    sx.check((one is not None) == (len(want) == 1), "a single one")
    if one is not None:
        sx.check(one is want[0], "that one")


@case("P27", budget=120, bounds="up to 2 servers and a client, each starting after "
      "every time of up to 2, or failing to")
def servers(sx):
    """Servers are waited for unless they fail, and then everything is shut down."""
    log, fails, ended = [], [], []
    arbiter = Arbiter()
    n = sx.size("n", 1, 2)

    async def server(delay, bad):
        try:
            await asyncio.sleep(delay)
            if bad:
                raise OSError("address in use")
            arbiter._servers_started.release()
            await arbiter.stop_sig.wait()
        finally:
            ended.append(bad)

    async def client(delay, bad):
        await asyncio.sleep(delay)
        if bad:
            raise AssertionError("no connection")
        return quiet(Slow({}))

    loop = VLoop()
    conn = quiet(Slow({}))

    async def main():
        slowest = 0
        for i in range(n):
            delay, bad = sx.int("delay%d" % i, 0, 2), sx.bool("bad%d" % i)
            fails.append(bad)
            slowest = sx.ite(delay > slowest, delay, slowest)
            arbiter._servers.append(asyncio.create_task(server(delay, bad)))
        sx.check(arbiter.register_connection(conn, "a"), "registered")
        bad = sx.bool("bad_client")
        fails.append(bad)
        arbiter.register_connection(client(sx.int("delay", 0, 1), bad), "b")
        try:
            return await arbiter.app(Method("app", log, 0)), slowest
        except (OSError, AssertionError):
            return None, slowest

    code, slowest = finish(main(), loop)
    bad = any(fails)
    sx.check((code is None) == bad, "error")
    sx.check((len(log) == 1) == (not bad), "application run")
    if not bad:
        sx.check(code == 0 and log[0][1] >= slowest, "once all have started")
    sx.check(len(ended) == n, "servers ended")
    sx.check(conn.disabled and conn.closes == 1, "connection closed")
    sx.check(arbiter.stop_sig.is_set() and not arbiter.manager._running, "stopped")


class Thing(RuntimeStruct):
    def init_env(self):
        self.env.int_channel("x", "uint8")


class Other(Thing):
    pass


def information(arbiter, config=None, tasks=(), structs=()):
    return AppInfo(LOG, None, arbiter._connections, arbiter.manager, arbiter._namespace,
                   arbiter.stop_sig, config or {}, {}, arbiter,
                   {x.name: x for x in tasks}, arbiter.task_manager, [],
                   {x.name: x for x in structs}, {})


@case("P27", budget=60, bounds="up to 3 tasks or structs of 2 kinds and 4 names, "
      "searched by 4 patterns and 2 kinds")
def lookups(sx):
    """Tasks and structs are found by pattern and kind."""
    tasks = sx.bool("tasks")
    kinds = [Tick, ArbiterTask] if tasks else [Other, Thing]
    made = []
    for i in range(sx.pick("n", [0, 1, 3])):
        kind = sx.pick("kind%d" % i, kinds)
        if kind is ArbiterTask:
            kind = Plain
        name = ["ab", "b", "c"][i]
        made.append(kind(name) if tasks else kind(name, {}))
    info = information(Arbiter(), tasks=made if tasks else [],
                       structs=[] if tasks else made)
    want_kind = sx.pick("want", kinds)
    pattern = sx.pick("pattern", [".*", "b", "^b", "c$", None])
    search = info.search_tasks if tasks else info.search_structs
    got = list(search(want_kind) if pattern is None else search(want_kind, pattern))
    names = {".*": "ab b c", "b": "ab b", "^b": "b", "c$": "c", None: "ab b c"}
    want = [x for x in made
            if x.name in names[pattern].split() and isinstance(x, want_kind)]
    sx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "those")


class Plain(ArbiterTask):
    async def dispatch(self):
        return True


KEYS = ["a", "app", "root", "config"]


@case("P27", budget=60, bounds="configurations with any of 4 keys and of 2 other ones, "
      "and parameters that are there or not, required or not")
def configuration(sx):
    """Parameters are those that are configured, and the original is kept."""
    values = {k: sx.int("v" + k, 0, 9) for k in KEYS}
    config = {k: values[k] for k in KEYS if k != "root" and sx.bool("has_" + k)}
    root = {"other": values["root"]}
    if sx.bool("app_key"):
        root["app"] = "first"
    there = sx.bool("nested")
    if there:
        root["config"] = dict(config)
    info = information(Arbiter(), {**config, "root": root})
    want = {"config": dict(config), **{k: v for k, v in root.items() if k != "config"}}
    sx.check(same(sx, info.original_config(), want), "the original")
    key, strict = sx.pick("key", KEYS), sx.bool("strict")
    try:
        got = info.config_param(key, -1, strict=bool(strict))
        sx.check(got == (values[key] if there and key in config else -1), "its value")
        sx.check(not strict or (there and key in config), "has to be there")
    except AssertionError:
        sx.check(strict and not (there and key in config), "is there")


def same(sx, x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and sx.all(*(same(sx, x[k], y[k]) for k in x), True)
    return x == y


@case("P27", budget=60, bounds="up to 2 connections, 2 tasks and 2 structs, one of which "
      "is of the other's kind, and a configuration or none")
def environments(sx):
    """An application's environments are complete, and known by their names."""
    counts = {k: sx.pick(k, [0, 2]) for k in ("connections", "tasks", "structs")}
    config = sx.pick("config", [{}, {"x": 1}])
    arbiter, seen, want = Arbiter(config=dict(config, root={})), [], {}
    before = [t.name for t in arbiter.task_manager.tasks]
    for i in range(counts["connections"]):
        conn = quiet(Slow({}))
        arbiter.register_connection(conn, "conn", str(i))
        want[".".join(["conn", str(i)])] = conn.command
    for i in range(counts["tasks"]):
        task = (Tick if i else Plain)("task%d" % i, period_s=1)
        task.logger = LOG
        arbiter.task_manager.register(task)
        want[task.name] = task.command
    for i in range(counts["structs"]):
        struct = Thing("struct%d" % i, {})
        arbiter._structs[struct.name] = struct
        want[struct.name] = struct.command
    old, data = dict(ENVIRONMENTS.data), RuntimepyServerConnection.json_data
    RuntimepyServerConnection.json_data = {}
    ENVIRONMENTS.data["stale"] = Thing("stale", {}).command

    async def app(info):
        seen.append((dict(ENVIRONMENTS.data), dict(RuntimepyServerConnection.json_data)))
        for x in [*info.connections.values(), *info.tasks.values(),
                  *info.structs.values()]:
            sx.check(x.env.finalized, "environments are complete")
        sx.check(set(info.tasks) - set(before) == {x for x in want if "task" in x},
                 "tasks")
        sx.check(set(info.structs) == {x for x in want if "struct" in x}, "structs")
        for x in info.structs.values():
            sx.check(x.array.size >= 1 and "x" in list(x.env.names), "structs are built")
        return 0

    try:
        sx.check(finish(arbiter.app(app)) == 0, "result")
    finally:
        ENVIRONMENTS.data.clear()
        ENVIRONMENTS.data.update(old)
        RuntimepyServerConnection.json_data = data
    envs, shown = seen[0]
    for name in before:
        envs.pop(name)
    sx.check(set(envs) == set(want), "by name")
    sx.check(all(envs[x] is want[x] for x in want), "the right ones")
    sx.check(set(shown["environments"]) >= set(want), "servers have them")
    sx.check(shown["config"]["config"] == config, "servers have the configuration")
