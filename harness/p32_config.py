"""P32: applications made from configuration data."""

import asyncio
import copy
import logging
import pathlib
import types

from harness.p23_connections import Conn, quiet
from harness.vloop import VLoop
from runtimepy.net import apps
from runtimepy.net.arbiter import config as conf
from runtimepy.net.arbiter.config import ConfigConnectionArbiter, codec, util
from runtimepy.net.arbiter.config.codec import ConnectionArbiterConfig
from runtimepy.net.arbiter.factory import ConnectionFactory
from runtimepy.net.arbiter import imports
from runtimepy.net.arbiter.imports import util as imports_util
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory
from runtimepy.net.arbiter.tcp import json
from runtimepy.net import stream, tcp, udp, websocket
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.server import websocket as server
from runtimepy.net.tcp import http
from runtimepy.net.tcp.telnet import np_05b
from runtimepy.net.udp import tftp
from runtimepy.subprocess.peer import RuntimepyPeer
from sx.registry import case
from vcorelib.names import to_snake

ASSUMPTIONS = ["modules and free ports are given"]
LOG = logging.getLogger("p32")
LOG.disabled = True


class Factory(ConnectionFactory):
    """Records what it is asked for."""

    def __init__(self, **kwargs):
        self.kwargs, self.clients, self.servers = kwargs, [], []

    async def client(self, name, *args, **kwargs):
        self.clients.append((name, args, kwargs))
        return quiet(Conn(LOG))

    async def server_task(self, stop_sig, manager, started, *args, **kwargs):
        self.servers.append((stop_sig, manager, args, kwargs))

        async def run():
            started.release()

        return run()


class OtherLink(Factory):
    pass


class Tick(ArbiterTask):
    def __init__(self, name, average_depth=None, **kwargs):
        super().__init__(name, average_depth=average_depth, **kwargs)
        self.depth = average_depth

    async def dispatch(self):
        return True


class TickTask(TaskFactory):
    kind = Tick


class MyStruct(RuntimeStruct):
    pass


class MyPeer(RuntimepyPeer):
    pass


async def first(app):
    return 0


async def second(app):
    return 0


MODULE = types.SimpleNamespace(Factory=Factory, OtherLink=OtherLink, TickTask=TickTask,
                               MyStruct=MyStruct, MyPeer=MyPeer, first=first,
                               second=second)


class Namesake(Factory):
    pass


Namesake.__name__ = "Factory"


def module(name):
    if name == "n":
        return types.SimpleNamespace(Factory=Namesake)
    return apps if name == "runtimepy.net.apps" else MODULE


class Given:
    """Modules and ports that are given."""

    def __init__(self, ports=None):
        self.ports, self.asked = list(ports or []), []
        self.old = (imports._import_module, imports_util._import_module,
                    codec.get_free_socket_name)

    def free(self, local=None, kind=None):
        self.asked.append((local, kind))
        return types.SimpleNamespace(port=self.ports[len(self.asked) - 1])

    def __enter__(self):
        imports._import_module = imports_util._import_module = module
        codec.get_free_socket_name = self.free
        return self

    def __exit__(self, *_):
        (imports._import_module, imports_util._import_module,
         codec.get_free_socket_name) = self.old


class Data:
    """Configuration data without schemas."""


def configuration(data):
    result = ConnectionArbiterConfig.__new__(ConnectionArbiterConfig)
    result.init(data)
    return result


class Arbiter(ConfigConnectionArbiter):
    def __init__(self):
        super().__init__(logger=LOG)
        for task in self.task_manager.tasks:
            task.logger = LOG


def run(coro):
    loop = VLoop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.cancel_all()
        asyncio.set_event_loop(None)


def load(data, wait=False):
    """An arbiter with a configuration, or the reason why not."""

    async def main():
        arbiter = Arbiter()
        before = set(t.name for t in arbiter.task_manager.tasks)
        try:
            await arbiter.process_config(configuration(data), wait_for_stop=wait)
        except AssertionError as exc:
            return arbiter, before, str(exc)
        return arbiter, before, None

    return run(main())


@case("P32", budget=100, bounds="3 ports of 2 kinds, every number and override, as part of a host the two ends of their range")
def ports(sx):
    """Ports are what was asked for, and stand for their number everywhere."""
    items, over, given = [], {}, []
    for i in range(3):
        kind = sx.pick("type%d" % i, ["tcp", "udp"]) if i < 2 else "udp"
        items.append({"name": "p%d" % i, "type": kind, "host": "h%d" % i,
                      "port": sx.int("port%d" % i, 0, 65535)})
        given.append(sx.int("given%d" % i, 1, 65535) if i < 2 else
                     sx.pick("given2", [1, 65535]))
        if i < 2 and sx.bool("override%d" % i):
            over["p%d" % i] = sx.int("over%d" % i, 1, 65535)
    wanted = [over.get(x["name"], x["port"]) for x in items]
    data = {"ports": items, "port_overrides": over}
    which = sx.int("which", 0, 3)
    name = "$p0" if which == 0 else "$p1" if which == 1 else "$p2" if which == 2 else "$no"
    data["factories"] = [{"name": "m.Factory", "kwargs": {"k": name}}]
    host = "x:%s:%s" % (name, name) if which > 1 else "x:z"
    data["clients"] = [{"factory": "factory", "name": "c", "defer": False,
                        "args": [name, host, "y", [name], 5],
                        "kwargs": {"remote_addr": ["h", name], "local_addr": ["l", name],
                                   "port": name, "markdown": "mine",
                                   "deep": {"er": [name]}}}]
    data["servers"] = [{"factory": "Factory", "kwargs": {"port": name}}]
    with Given(given) as world:
        arbiter, _, error = load(data)
    sx.check(error is None, "loaded")
    import socket
    for (local, kind), item, want in zip(world.asked, items, wanted):
        sx.check(local.name == item["host"] and local.port == want, "asked for")
        sx.check((kind == socket.SOCK_STREAM) == (item["type"] == "tcp"), "kind")
    for i in range(3):
        sx.check(arbiter._ports["p%d" % i] == given[i], "number")
        sx.check(items[i]["port"] == given[i], "updated")
    value = given[0] if which == 0 else given[1] if which == 1 else \
        given[2] if which == 2 else "$no"
    made = arbiter._conn_factories["factory"]
    sx.check(made.kwargs["k"] == value, "of factories")
    cname, args, kwargs = made.clients[0]
    sx.check(cname == "c" and len(args) == 5 and args[2] == "y" and args[4] == 5, "args")
    sx.check(args[3][0] == value, "in a list")
    sx.check(args[1] == (host if which < 2 else "x:%s:%s" % (value, value)), "in a host")
    sx.check(args[0] == value, "as an argument")
    sx.check(isinstance(kwargs["remote_addr"], tuple), "addresses are tuples")
    sx.check(kwargs["remote_addr"][0] == "h" and kwargs["remote_addr"][1] == value,
             "in an address")
    sx.check(isinstance(kwargs["local_addr"], tuple), "addresses are tuples")
    sx.check(kwargs["local_addr"][0] == "l" and kwargs["local_addr"][1] == value,
             "in a local address")
    sx.check(kwargs["markdown"] == "mine", "arguments come first")
    sx.check(kwargs["port"] == value and kwargs["deep"]["er"][0] == value, "in kwargs")
    stop, manager, sargs, skwargs = made.servers[0]
    sx.check(stop is arbiter.stop_sig and manager is arbiter.manager, "server")
    sx.check(sargs == () and skwargs["port"] == value, "of servers")
    sx.check(len(arbiter._servers) == 1, "one server")


NAMES = {"client": ["factory", "Factory", "other_link", "OtherLink", "nothing"],
         "task": ["tick_task", "TickTask", "factory"],
         "struct": ["my_struct", "MyStruct", "my_peer"],
         "process": ["my_peer", "MyPeer", "my_struct"]}


@case("P32", [{"kind": k} for k in NAMES], budget=100,
      bounds="2 entries of each kind with 2 names, by every name of a factory, "
      "registered twice or not, and with another of that name or not")
def entries(sx, kind):
    """Everything configured is registered, once, or the configuration refused."""
    names = ["m.Factory", "m.OtherLink", "m.TickTask", "m.MyStruct", "m.MyPeer"]
    twice = sx.bool("twice")
    clash = sx.bool("clash")
    spaces = ["a"] if sx.bool("namespaced") else []
    data = {"factories": [{"name": n, "namespaces": spaces} for n in
                          names + (names[:1] if twice else [])
                          + (["n.Factory"] if clash else [])]}
    items = []
    for i in range(2):
        item = {"factory": sx.pick("factory%d" % i, NAMES[kind]),
                "name": sx.pick("name%d" % i, ["x", "y"])}
        if kind == "client":
            item["defer"] = sx.bool("defer%d" % i)
            item["markdown"] = "m%d" % i
        elif kind == "task":
            item["period_s"] = 1 + i
            item["average_depth"] = 10 + i
            if i:
                item["markdown"], item["config"] = "m%d" % i, {"n": i}
        elif kind == "process":
            item.update(program="m.Program", config={"n": i}, markdown="m%d" % i)
        else:
            item["config"] = {"n": i}
        items.append(item)
    data[{"client": "clients", "process": "processes"}.get(kind, kind + "s")] = items
    with Given():
        arbiter, before, error = load(data)
    bad = NAMES[kind][4:] if kind == "client" else NAMES[kind][2:]
    unknown = any(i["factory"] in bad for i in items)
    same = items[0]["name"] == items[1]["name"]
    sx.check((error is not None) == (unknown or same or clash), "refused")
    for coro in arbiter._deferred_connections.values():
        coro.close()
    if error is not None:
        return
    if kind == "client":
        full = [".".join(spaces + [i["name"]]) for i in items]
        for i, (item, name) in enumerate(zip(items, full)):
            sx.check((name in arbiter._deferred_connections) == item["defer"], "deferred")
            sx.check((name in arbiter._connections) == (not item["defer"]), "connected")
            made = arbiter._conn_factories[item["factory"]]
            calls = [c for c in made.clients if c[0] == item["name"]]
            sx.check(len(calls) == (0 if item["defer"] else 1), "made once")
            if calls:
                sx.check(calls[0][2] == {"markdown": "m%d" % i}, "arguments")
        sx.check(arbiter.manager.queue.qsize() == sum(not i["defer"] for i in items),
                 "to be processed")
    elif kind == "task":
        tasks = {t.name: t for t in arbiter.task_manager.tasks if t.name not in before}
        sx.check(set(tasks) == {"x", "y"}, "tasks")
        for i, item in enumerate(items):
            sx.check(tasks[item["name"]].period_s.value == 1 + i, "period")
            sx.check(isinstance(tasks[item["name"]], Tick), "kind")
            sx.check(("m1" in tasks[item["name"]].markdown) == (i == 1), "markdown")
            sx.check(tasks[item["name"]].config == ({"n": 1} if i else {}), "configured")
            sx.check(tasks[item["name"]].depth == 10 + i, "depth of averages")
    elif kind == "struct":
        sx.check(list(arbiter._structs) == [i["name"] for i in items], "structs")
        for i, item in enumerate(items):
            made = arbiter._structs[item["name"]]
            sx.check(isinstance(made, MyStruct) and made.name == item["name"], "made")
            sx.check(made.config == {"n": i}, "configured")
    else:
        sx.check(list(arbiter._peers) == [i["name"] for i in items], "processes")
        for i, item in enumerate(items):
            sx.check(arbiter._peers[item["name"]] == (
                MyPeer, item["name"], {"n": i}, "m.Program", "m%d" % i), "as configured")


@case("P32", budget=60, bounds="3 shapes of 2 methods, for initialisation and stages, "
      "waiting to stop or not")
def methods(sx):
    """Methods run in the configured stages, which the configuration keeps."""
    shapes = {"none": (None, []), "one": ("m.first", [[first]]),
              "stages": (["m.first", "m.second"], [[first], [second]]),
              "both": ([["m.first", "m.second"], "m.first"],
                       [[first, second], [first]])}
    init = sx.pick("init", list(shapes))
    app = sx.pick("app", list(shapes))
    wait = sx.bool("wait")
    extra = sx.bool("config")
    data = {}
    if init != "none":
        data["init"] = shapes[init][0]
    if app != "none":
        data["app"] = shapes[app][0]
    if extra:
        data["config"] = {"x": 1}
    before = copy.deepcopy(data)

    async def main():
        arbiter = Arbiter()
        arbiter._config["root"] = data
        default = list(arbiter._apps)
        await arbiter.process_config(configuration(data), wait_for_stop=wait)
        return arbiter, default

    with Given():
        arbiter, default = run(main())
    want = list(shapes[app][1]) + ([[apps.wait_for_stop]] if wait else [])
    sx.check(arbiter._inits == shapes[init][1], "initialisation")
    sx.check(arbiter._apps == (want or default), "stages")
    sx.check(arbiter._config["root"] is data, "original kept")
    sx.check(arbiter._config.get("x") == (1 if extra else None), "configuration")
    now = {k: v for k, v in data.items()}
    if extra:
        now["config"] = {"x": 1}
    sx.check(now == before, "unchanged")


@case("P32", budget=60, bounds="3 files of 2 names, each found as it is or in one of 2 "
      "packages, with every value of their items")
def files(sx):
    """Files are found, loaded once, and combined."""
    packages = ["one", "two"]
    contents, where, paths = {}, {}, []
    for i in range(2):
        where["f%d" % i] = sx.pick("where%d" % i, ["path", "one", "two", "no"])
        contents["f%d" % i] = {"config": {"k%d" % i: sx.int("v%d" % i, 0, 99)},
                               "structs": [{"name": "s%d" % i, "factory": "my_struct"}],
                               "factories": [{"name": "m.MyStruct"}] if i else []}
    for i in range(3):
        paths.append(sx.pick("path%d" % i, ["f0", "f1"]))
    opened, built = [], []
    namesakes = sx.bool("namesakes")
    builders = sx.pick("builders", [[], ["b.one"], ["b.two", "b.one"]])
    contents["f0"]["config_builders"] = builders

    class Found:
        def __init__(self, name):
            self.key = name
            # Files in different directories can have the same name.
            self.folder, self.name = (name, "same") if namesakes else ("", name)

        def __str__(self):
            return str(self.resolve())

        __fspath__ = __str__

        def resolve(self):
            return pathlib.PurePosixPath("/abs", self.folder, self.name)

    def find(path, logger=None, include_cwd=False, package=None, search_paths=()):
        name = str(path).split(".", 1)[0]
        if package is None and not (include_cwd or search_paths):
            return None
        return Found(name) if where[name] == (package or "path") else None

    def decode(found, includes_key=None, require_success=False, logger=None):
        opened.append(found.key)
        return types.SimpleNamespace(data=copy.copy(contents[found.key]))

    arbiter = Arbiter.__new__(Arbiter)
    arbiter.logger = LOG
    arbiter._config = {}
    seen = []

    async def process(config, wait_for_stop=False):
        seen.append((config, wait_for_stop))

    arbiter.process_config = process
    arbiter.search_packages = packages
    old = conf.find_file, conf._ARBITER, conf.ConnectionArbiterConfig, conf._addsitedir, conf.sys
    conf.find_file, conf._ARBITER = find, types.SimpleNamespace(decode=decode)
    conf.ConnectionArbiterConfig = lambda data: data

    def one(data):
        built.append("one")
        data["config"]["built"] = 1

    def two(data):
        built.append("two")
        data["config"]["built"] = 2

    imported, conf._import_module = conf._import_module, lambda name: (
        types.SimpleNamespace(one=one, two=two))
    sites = []
    conf._addsitedir = sites.append
    conf.sys = types.SimpleNamespace(path=[])
    wait = sx.bool("wait")
    error = None
    try:
        run(arbiter.load_configs(paths, wait_for_stop=wait))
    except AssertionError as exc:
        error = str(exc)
    finally:
        (conf.find_file, conf._ARBITER, conf.ConnectionArbiterConfig,
         conf._addsitedir, conf.sys) = old
        conf._import_module = imported
    missing = any(where[p] == "no" for p in paths)
    sx.check((error is not None) == missing, "all are found")
    if missing:
        return
    order = [p for i, p in enumerate(paths) if p not in paths[:i]]
    sx.check(opened == order, "loaded once")
    sx.check(len(seen) == 1 and seen[0][1] == wait, "processed")
    data = seen[0][0]
    sx.check(arbiter._config["root"] is data, "kept")
    want = [x[2:] for x in builders] if "f0" in paths else []
    sx.check(built == want, "builders run once, in order")
    sx.check(data["config"].get("built") == (1 if want else None), "builders change it")
    for i in range(2):
        if "f%d" % i in paths:
            sx.check(data["config"]["k%d" % i] == contents["f%d" % i]["config"]["k%d" % i],
                     "values")
        else:
            sx.check("k%d" % i not in data["config"], "only those")
    sx.check([s["name"] for s in data["structs"]] == ["s" + p[1] for p in order],
             "lists are joined")


@case("P32", bounds="every list of 3, at either end")
def adding(sx):
    """A list is added to at the end that is asked for."""
    have = [sx.int("i%d" % i, 0, 9) for i in range(sx.size("n", 0, 3))]
    new, front = sx.int("new", 0, 9), sx.bool("front")
    dest = list(have)
    util.list_adder(dest, new, front=front)
    want = [new] + have if front else have + [new]
    sx.check(len(dest) == len(want) and sx.all(*(a == b for a, b in zip(dest, want))),
             "added")


# What's provided for configurations, and what each of them makes.
PROVIDED = {
    "UdpEcho": udp.EchoUdpConnection,
    "UdpMessage": stream.UdpPrefixedMessageConnection,
    "UdpMessageEcho": stream.EchoUdpMessageConnection,
    "UdpNull": udp.NullUdpConnection,
    "UdpJson": json.UdpJsonMessageConnection,
    "UdpQueue": udp.QueueUdpConnection,
    "Tftp": tftp.TftpConnection,
    "TcpEcho": tcp.EchoTcpConnection,
    "TcpMessage": stream.TcpPrefixedMessageConnection,
    "TcpMessageEcho": stream.EchoTcpMessageConnection,
    "TcpNull": tcp.NullTcpConnection,
    "TcpJson": json.TcpJsonMessageConnection,
    "WebsocketEcho": websocket.EchoWebsocketConnection,
    "WebsocketNull": websocket.NullWebsocketConnection,
    "WebsocketJson": json.WebsocketJsonMessageConnection,
    "Http": http.HttpConnection,
    "Np05b": np_05b.Np05bConnection,
    "RuntimepyHttp": RuntimepyServerConnection,
    "RuntimepyWebsocketJson": server.RuntimepyWebsocketConnection,
    "RuntimepyWebsocketData": server.RuntimepyDataWebsocketConnection,
}


@case("P32", bounds="every connection factory that's provided")
def provided(sx):
    """The factories that are provided make connections of the kind they're named for."""
    name = sx.pick("name", list(PROVIDED))
    kind = PROVIDED[name]
    arbiter = ConfigConnectionArbiter()
    sx.check(arbiter.register_module_factory(f"runtimepy.net.factories.{name}"), "provided")
    factory = arbiter._conn_factories[to_snake(name)]
    sx.check(issubclass(factory.kind, kind), "of its kind")
